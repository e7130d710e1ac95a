"""Detection measurements of one frame against a from-scratch accounting."""
import math

import numpy as np
from hypothesis import strategies as st

from checks import C03
from vlib import det, drv, geo, wod
from vlib.core import Sub
from vlib.driver import unpack

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


LET_TYPES = [1, 2, 3]


@st.composite
def cases(draw, gens=None):
  c = draw(det.configs(gens))
  c.update(draw(det.frame()))
  if c['p'] and draw(st.integers(0, 3)) == 0:  # the next float above or below a score
    x = np.float32(draw(st.sampled_from(c['p']))['s'])
    c['cut'] = sorted(c['cut'][:2] + [float(np.nextafter(x, np.float32(draw(st.sampled_from([0, 1])))))])
  c['minha'] = draw(st.sampled_from([None, None, 0.55, 0.83, 1.0]))
  if draw(st.integers(0, 3)) == 0 and c['kind'] != 3:
    c['let'] = dict(s=[draw(st.sampled_from([0.0, 1.5])), draw(st.sampled_from([0.0, 0.0, -2.0])), draw(st.sampled_from([0.0, 2.0]))],
                    pct=draw(st.sampled_from([0.1, 0.3, 0.0])), tol=draw(st.sampled_from([0.5, 3.0])),
                    align=draw(st.sampled_from(LET_TYPES)))
    if any(math.dist(o['b'][:3], c['let']['s']) < 0.25 for o in c['p'] + c['g']):
      del c['let']  # no line of sight
  if c['kind'] == 3 and draw(st.booleans()):
    for o in c['p'] + c['g']:
      o['cam'] = draw(st.sampled_from([1, 2, 3, 4, 5, 1, 3, 5, 0, 7]))
  if c['g'] and draw(st.integers(0, 5)) == 0:
    c['g'][0]['t'] = 0
  det.unknown_types(draw, c['gens'], [c])
  det.custom_iou(draw, c)
  return c


def geometry(case):
  """IoU (LET-IoU), affinity matrices."""
  pds, gts = case['p'], case['g']
  kind = det.KINDS[case['kind']]
  if not case.get('let'):
    return det.iou_matrix(pds, gts, kind), [[1.0] * len(gts) for _ in pds]
  L = case['let']
  iou, aff = [], []
  for p in pds:
    ri, ra = [], []
    for g in gts:
      if p['t'] != g['t']:
        ri.append(0.0)
        ra.append(0.0)
        continue
      rel = lambda b: [b[k] - L['s'][k] for k in range(3)] + list(b[3:])
      ri.append(geo.iou(C03.aligned(rel(p['b']), rel(g['b']), L['align']), rel(g['b']), kind))
      ra.append(C03.affinity(p['b'], g['b'], L['s'], L['pct'], L['tol']))
    iou.append(ri)
    aff.append(ra)
  return iou, aff


def heading_accuracy(p, g):
  return 1 - abs(math.remainder(p['b'][6] - g['b'][6], 2 * math.pi)) / math.pi


def reference(case):
  """-> list of (gen, shard, level, cutoff, expected dict or None)."""
  pds, gts = case['p'], case['g']
  iou, aff = geometry(case)
  can, near = det.allowed(iou, pds, gts, case['thr'])
  if case.get('let'):
    for k in range(len(pds)):
      for j in range(len(gts)):
        near |= can[k][j] and 0 < aff[k][j] < 1e-3
        # Within rounding of zero affinity the weight can be anything.
        near |= can[k][j] and aff[k][j] == 0 and C03.affinity(
            pds[k]['b'], gts[j]['b'], case['let']['s'], case['let']['pct'], case['let']['tol'], False) > -1e-4
        can[k][j] = can[k][j] and aff[k][j] > 0
  w = [[round(iou[k][j] * aff[k][j] * 1e6) for j in range(len(gts))] for k in range(len(pds))]
  minha = -1.0 if case.get('minha') is None else det.f32(case['minha'])
  out = []
  for gen, levels in case['gens']:
    gt_only = gen in det.GT_ONLY
    edge = any(det.edge_of(gen, o) for o in pds + gts)
    ps_all = [det.shards_for_matching(gen, o) for o in pds]
    gs_all = [det.shards_for_matching(gen, o) for o in gts]
    own = [det.shard(gen, o) for o in gts]
    for s in range(det.n_shards(gen)):
      gs = [j for j in range(len(gts)) if s in gs_all[j]]
      for level in det.levels_of(levels):
        for cut in case['cut']:
          ps = [k for k in range(len(pds)) if s in ps_all[k] and pds[k]['s'] >= cut]
          m, unique = det.match(w, can, [p['s'] for p in pds], ps, gs, case['type'])
          if near or edge or not unique:
            out.append((gen, s, level, cut, None))
            continue
          e = dict(tp=[], fp=[], fn=[])
          skip = False
          for a, k in enumerate(ps):
            if m[a] >= 0:
              j = gs[m[a]]
              if gt_only and own[j] != s:
                continue
              h = heading_accuracy(pds[k], gts[j])
              skip |= abs(h - minha) < 1e-5 and pds[k]['b'][6] != gts[j]['b'][6]
              if h > minha:
                e['tp'].append((pds[k]['id'], gts[j]['id'], iou[k][j], h, aff[k][j]))
            elif not pds[k].get('nlz'):
              if gt_only and gs:
                best = max(iou[k][j] for j in gs)
                top = [j for j in gs if iou[k][j] > best - det.NEAR]
                skip |= abs(best - 0.01) < det.NEAR or (
                    best > 0.009 and len(set(own[j] == s for j in top)) > 1)
                if best >= 0.01 and own[top[0]] != s:
                  continue
              e['fp'].append(pds[k]['id'])
          taken = set(m)
          for b, j in enumerate(gs):
            if b not in taken and gts[j]['dd'] <= level and (not gt_only or own[j] == s):
              e['fn'].append(gts[j]['id'])
          out.append((gen, s, level, cut, None if skip else e))
  return out


def check(case, ctx):
  out = ctx.env['drv'].call('det_measure', det.config_proto(case).SerializeToString(),
                            det.packed(case['p']), det.packed(case['g']), *det.custom_args(case))
  D = wod.pb('protos.metrics_pb2').DetectionMeasurements
  ms = [D.FromString(x) for x in unpack(out[0])]
  judge(ctx, case, ms, reference(case))


def judge(ctx, case, ms, ref):
  nc = len(case['cut'])
  ctx.require(len(ms) * nc == len(ref), '%d results, expected %d', len(ms), len(ref) // nc)
  kinds = set()
  for k, (gen, s, level, cut, e) in enumerate(ref):
    M = ms[k // nc]
    b = M.breakdown
    ctx.equal((b.generator_id, b.shard, b.difficulty_level), (gen, s, level), 'breakdown of result %d' % (k // nc))
    ctx.require(len(M.measurements) == nc, 'measurements per result')
    m = M.measurements[k % nc]
    ctx.equal(m.score_cutoff, cut, 'score cutoff')
    where = 'generator %d shard %d level %d cutoff %s' % (gen, s, level, cut)
    if e is None:
      ctx.label('skipped: ties')
      continue
    ctx.equal((m.num_tps, m.num_fps, m.num_fns), (len(e['tp']), len(e['fp']), len(e['fn'])),
              'TP, FP, FN of ' + where)
    ctx.close(m.sum_ha, sum(t[3] for t in e['tp']), 'heading accuracy sum of ' + where, 1e-4, 0)
    ctx.close(m.sum_longitudinal_affinity, sum(t[4] for t in e['tp']), 'affinity sum of ' + where, 1e-3, 0)
    ctx.require(len(m.details) == int(bool(case.get('details'))), 'details present: %d', len(m.details))
    for x in m.details:
      got = sorted(zip(x.tp_pr_ids, x.tp_gt_ids, x.tp_ious, x.tp_heading_accuracies, x.tp_longitudinal_affinities))
      ctx.equal([g[:2] for g in got], sorted(t[:2] for t in e['tp']), 'true positives of ' + where)
      ctx.close([g[2:] for g in got], [t[2:] for t in sorted(e['tp'])], 'true positive details of ' + where, 1e-4, 0)
      for f in (x.tp_gt_ids, x.tp_ious, x.tp_heading_accuracies, x.tp_longitudinal_affinities):
        ctx.require(len(f) == len(x.tp_pr_ids), 'detail lengths')
      ctx.equal(sorted(x.fp_ids), sorted(e['fp']), 'false positives of ' + where)
      ctx.equal(sorted(x.fn_ids), sorted(e['fn']), 'false negatives of ' + where)
    for n in ('tp', 'fp', 'fn'):
      if e[n]:
        kinds.add(n)
  ctx.nontrivial(len(kinds) == 3)
  for g, _ in case['gens']:
    ctx.label(det.GEN_NAMES[g])
  if case.get('let'):
    ctx.label('LET')
  if case.get('via'):
    ctx.label('custom IoU')


SUBS = [
    Sub('frames', cases, check, 6000, rule='true positives, false positives and false negatives all occur'),
    Sub('gt_only', lambda: cases([det.VELOCITY, det.CAMERA]), check, 3500,
        rule='true positives, false positives and false negatives all occur'),
]
