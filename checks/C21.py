"""TensorFlow op kernels against the libraries they wrap."""
import random

import numpy as np
from hypothesis import strategies as st

from checks import C09, C20
from vlib import camera, det, drv, geo, motion, wod
from vlib.core import Sub
from vlib.driver import Driver, d, i, pack, ud, ui, unpack
from vlib.geo import f

DT = {'float32': 1, 'float64': 2, 'int32': 3, 'uint8': 4, 'int64': 9, 'bool': 10}
NP = {v: k for k, v in DT.items()}


def prepare(tier):
  return {k: drv.prepare(k)(tier)['driver'] for k in ('ops_driver', 'det_driver', 'motion_driver', 'camera_driver')}


def open_env(env):
  wod.setup()
  return dict(ops=Driver(env['ops_driver']), det=Driver(env['det_driver']), motion=Driver(env['motion_driver']),
              drv=Driver(env['camera_driver']))


def close_env(env):
  for k in ('ops', 'det', 'motion', 'drv'):
    env[k].stop()


def tensor(x, dtype=None):
  if dtype == 'string':
    return pack([i(7), i(len(x)), pack(x)])
  x = np.asarray(x, dtype=dtype)
  return pack([i(DT[x.dtype.name]), i(list(x.shape)), np.ascontiguousarray(x).tobytes()])


def run_op(ctx, name, attrs, inputs):
  """-> outputs, or None and the error."""
  fs = []
  for k, (t, v) in attrs.items():
    fs += [k, t, v]
  out = ctx.call(ctx.env['ops'].call, 'op', name, pack(fs), pack(inputs))
  if out[0]:
    return None, out[0].decode(errors='replace')
  shapes = [list(map(int, ui(x))) for x in unpack(out[1])] if out[1] else None
  res = []
  for k, o in enumerate(unpack(out[2])):
    dt, shape, data = unpack(o)
    a = np.frombuffer(data, NP[int(ui(dt)[0])]).reshape([int(v) for v in ui(shape)])
    res.append(a)
    if shapes and shapes[k] != [-2]:
      s = shapes[k]
      ctx.require(len(s) == a.ndim and all(p in (-1, q) for p, q in zip(s, a.shape)),
                  'output %d of %s has shape %s, declared %s', k, name, a.shape, s)
  return res, ''


def must(ctx, name, attrs, inputs):
  out, err = run_op(ctx, name, attrs, inputs)
  ctx.require(out is not None, '%s failed on valid tensors: %s', name, err)
  return out


# ---- objects in rows -------------------------------------------------------
WIDTH = {1: 7, 2: 5, 3: 4}


def row(o, width):
  b = o['b']
  return {7: b, 5: [b[0], b[1], b[3], b[4], b[6]], 4: [b[0], b[1], b[3], b[4]]}[width]


def from_row(o, width):
  """What the row says, as an object."""
  r = [float(np.float32(v)) for v in row(o, width)]
  b = {7: r, 5: r[:2] + [0.0] + r[2:4] + [0.0] + r[4:], 4: r[:2] + [0.0] + r[2:4] + [0.0, 0.0]}[width] if width != 7 else r
  return b


def rows(case):
  """Flat shuffled rows: (object, frame id[, sequence id])."""
  rnd = random.Random(case['seed'])
  pds = [(o, key) for key, fr in case['frames'] for o in fr['p']]
  gts = [(o, key) for key, fr in case['frames'] for o in fr['g']]
  if case['shuffle']:
    rnd.shuffle(pds)
    rnd.shuffle(gts)
  return pds, gts


def box_tensor(objs, width):
  return tensor(np.array([row(o, width) for o, _ in objs], 'float32').reshape(-1, width))


def det_inputs(case, pds, gts):
  w = case['width']
  return [box_tensor(pds, w), tensor([o['t'] for o, _ in pds], 'uint8'), tensor([o['s'] for o, _ in pds], 'float32'),
          tensor([k for _, k in pds], 'int64'), tensor([bool(o.get('nlz')) for o, _ in pds], 'bool'),
          box_tensor(gts, w), tensor([o['t'] for o, _ in gts], 'uint8'), tensor([k for _, k in gts], 'int64'),
          tensor([o['dd'] for o, _ in gts], 'uint8'),
          tensor(np.array([o['v'] for o, _ in gts], 'float32').reshape(-1, 2))]


def pd_obj(o, w, **kw):
  return dict(b=from_row(o, w), t=o['t'], s=o['s'], nlz=o.get('nlz'), **kw)


def gt_obj(o, w, **kw):
  return dict(b=from_row(o, w), t=o['t'], v=[float(np.float32(x)) for x in o['v']], **kw)


@st.composite
def op_configs(draw):
  c = draw(det.configs())
  if draw(st.integers(0, 2)) == 0:
    c['cut'] = []
    c['ncut'] = draw(st.integers(1, 4))
  if draw(st.integers(0, 3)) == 0:
    c['let'] = dict(s=[draw(f(-3, 3)), draw(f(-3, 3)), 0.0], pct=0.1, tol=0.5, align=draw(st.sampled_from([1, 2, 3, 4, 5])))
    c['kind'] = draw(st.sampled_from([1, 2]))
  if draw(st.booleans()):
    c['minha'] = draw(st.sampled_from([0.0, 0.5, 0.9]))
  c['width'] = draw(st.sampled_from([7, WIDTH[c['kind']]]))
  c['seed'] = draw(st.integers(0, 999))
  c['shuffle'] = draw(st.booleans())
  return c


IDS = [0, 1, 2, 3, 7, -1, -5, 2**32, 2**32 + 1, 2**40, 2**62, -2**63, 2**63 - 1]


@st.composite
def det_cases(draw):
  c = draw(op_configs())
  ids = draw(st.lists(st.one_of(st.sampled_from(IDS), st.integers(-2**63, 2**63 - 1)), max_size=4, unique=True))
  c['frames'] = []
  # With the same anchors, objects would match across frames if these were mixed up.
  an = draw(det.anchors([1, 1, 2, 3, 4])) if draw(st.booleans()) else None
  for k in ids:
    fr = draw(det.frame(5, 5, anchor=an))
    for g in fr['g']:
      g.pop('vis', None)
      g.pop('nlz', None)
      g['v'] = g.get('v') or [0.0, 0.0]
    c['frames'].append((k, fr))
  return c


def library_frames(case, pds, gts):
  w = case['width']
  P, G = {}, {}
  for o, k in pds:
    P.setdefault(k, []).append(pd_obj(o, w))
  for o, k in gts:
    G.setdefault(k, []).append(gt_obj(o, w, dd=o['dd']))
  keys = sorted(set(P) | set(G))
  out = [(P.get(k, []), G.get(k, [])) for k in keys] or [([], [])]
  return [det.packed(p) for p, _ in out], [det.packed(g) for _, g in out], out


def check_metrics(ctx, out, ms, where):
  n = len(ms)
  ap, apha, apla, pr, prha, prla, bd = out
  s = len(ms[0].measurements.measurements) if ms else 0
  ctx.equal([a.shape for a in out], [(n,)] * 3 + [(n, s, 5), (n, s, 2), (n, s, 2), (n, 3)], where + 'shapes')
  ctx.equal(bd.tolist(), [[m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level] for m in ms],
            where + 'breakdowns')
  for a, name in ((ap, ''), (apha, '_ha_weighted'), (apla, '_longitudinal_affinity_weighted')):
    ctx.close(a, [getattr(m, 'mean_average_precision' + name) for m in ms], where + 'average precision' + name, 1e-6)
  for k, m in enumerate(ms):
    x = m.measurements.measurements
    want = [list(v) for v in zip(m.precisions, m.recalls, [v.num_tps for v in x], [v.num_fps for v in x], [v.num_fns for v in x])]
    ctx.close(pr[k], np.reshape(want, (s, 5)), where + 'precision, recall, TP, FP, FN of result %d' % k, 1e-6)
    for a, name in ((prha, '_ha_weighted'), (prla, '_longitudinal_affinity_weighted')):
      want = list(zip(getattr(m, 'precisions' + name), getattr(m, 'recalls' + name)))
      ctx.close(a[k], np.reshape(want, (s, 2)), where + 'precision and recall%s of result %d' % (name, k), 1e-6)


def check_detection(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  cfg = det.config_proto(case)
  pds, gts = rows(case)
  tin = det_inputs(case, pds, gts)
  P, G, frames = library_frames(case, pds, gts)
  dv = ctx.env['det']
  ms = [M.DetectionMetrics.FromString(x) for x in unpack(
      dv.call('det_metrics', cfg.SerializeToString(), pack(P), pack(G))[0])]
  attr = {'config': ('s', cfg.SerializeToString())}
  check_metrics(ctx, must(ctx, 'DetectionMetrics', attr, tin), ms, '')
  # The state: summed measurements; and the result computed from it.
  if not case['cut']:
    cfg = M.Config.FromString(dv.call('det_cutoffs', cfg.SerializeToString(), pack(P), pack(G))[0])
  state, = must(ctx, 'DetectionMetricsState', attr, tin)
  want = [[[x.num_fps, x.num_tps, x.num_fns, x.sum_ha, x.sum_longitudinal_affinity] for x in m.measurements.measurements]
          for m in ms]
  ctx.close(state, np.reshape(want, (len(ms), len(cfg.score_cutoffs), 5)), 'state', 1e-5)
  if cfg.score_cutoffs:
    out = must(ctx, 'DetectionMetricsResult', {'config': ('s', cfg.SerializeToString())}, [tensor(state)])
    check_metrics(ctx, out, ms, 'from the state: ')
    # States of parts of the data add up.
    keys = [k for k, _ in case['frames']]
    half = set(keys[::2])
    parts = []
    for keep in (half, set(keys) - half):
      sub = det_inputs(case, [x for x in pds if x[1] in keep], [x for x in gts if x[1] in keep])
      parts.append(must(ctx, 'DetectionMetricsState', {'config': ('s', cfg.SerializeToString())}, sub)[0])
    ctx.close(parts[0] + parts[1], state, 'states of two halves added', 1e-4)
  ctx.nontrivial(len(frames) > 1 and any(m.mean_average_precision > 0 for m in ms))
  ctx.label('%d rows wide' % case['width'], 'let' if case.get('let') else 'plain')


# ---- tracking ----------------------------------------------------------------
@st.composite
def trk_cases(draw):
  c = draw(op_configs())
  c.pop('let', None)
  c['details'] = False
  names = draw(st.lists(st.sampled_from(['a', 'b', '', 'seq-FRONT', '10', '9', 'a\x00b', 'é']), min_size=0, max_size=3, unique=True))
  c['frames'] = []
  step, at = draw(st.sampled_from([(3, -4), (100000, 1550083467346370), (2**32, 5), (-1, 2)]))
  for s in names:
    for k, fr in enumerate(draw(C09.scene(max_frames=4, speeds=False))):
      for o in fr['p'] + fr['g']:
        o['id'] = int(o['id'][1:])
        o.setdefault('v', [0.0, 0.0])
      c['frames'].append(((s, k * step + at), fr))
  c['idmul'] = draw(st.sampled_from([1, -3, 2**40]))
  return c


def check_tracking(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  cfg = det.config_proto(case)
  w = case['width']
  pds, gts = rows(case)
  mul = case['idmul']

  def side(objs, is_pd):
    t = [box_tensor(objs, w), tensor([o['t'] for o, _ in objs], 'uint8')]
    if is_pd:
      t.append(tensor([o['s'] for o, _ in objs], 'float32'))
    t += [tensor([k[1] for _, k in objs], 'int64'), tensor([k[0].encode() for _, k in objs], 'string'),
          tensor([o['id'] * mul for o, _ in objs], 'int64')]
    if is_pd:
      t.append(tensor([bool(o.get('nlz')) for o, _ in objs], 'bool'))
    else:
      t += [tensor([o['td'] for o, _ in objs], 'uint8'), tensor(np.array([o['v'] for o, _ in objs], 'float32').reshape(-1, 2))]
    return t

  got = must(ctx, 'TrackingMetrics', {'config': ('s', cfg.SerializeToString())}, side(pds, True) + side(gts, False))
  P, G = {}, {}
  for o, k in pds:
    P.setdefault(k, []).append(pd_obj(o, w, id=str(o['id'] * mul)))
  for o, k in gts:
    G.setdefault(k, []).append(gt_obj(o, w, id=str(o['id'] * mul), td=o['td'], dd=o['td']))
  seqs = {}
  for k in set(P) | set(G):
    seqs.setdefault(k[0].encode(), []).append(k)
  p = pack([pack([det.packed(P.get(k, [])) for k in sorted(seqs[s])]) for s in sorted(seqs)])
  g = pack([pack([det.packed(G.get(k, [])) for k in sorted(seqs[s])]) for s in sorted(seqs)])
  ms = [M.TrackingMetrics.FromString(x) for x in unpack(ctx.env['det'].call('trk_metrics', cfg.SerializeToString(), p, g)[0])]
  ctx.equal([a.shape for a in got], [(len(ms),)] * 6 + [(len(ms), 3)], 'shapes')
  for a, name in zip(got, ('mota', 'motp', 'miss', 'mismatch', 'fp', 'score_cutoff')):
    ctx.close(a, [getattr(m, name) for m in ms], name, 1e-5, 1e-5)
  ctx.equal(got[6].tolist(), [[m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level] for m in ms], 'breakdowns')
  ctx.nontrivial(any(m.mota > 0 for m in ms) and len(seqs) > 1)
  ctx.label('tracked' if any(m.mota > 0 for m in ms) else 'nothing tracked')


# ---- motion --------------------------------------------------------------------
@st.composite
def motion_cases(draw):
  cfg = draw(motion.configs(max_future=8))
  nb = draw(st.integers(1, 3))
  A, M, K, N = draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 2))
  batch = []
  for b in range(nb):
    tracks = [draw(motion.track(cfg, k, 12.0)) for k in range(A)]
    ok = [k for k in range(A) if any(tracks[k]['v'])]
    pred, used = [], set()
    for m in range(M):
      ags = []
      for _ in range(N):
        free = [k for k in ok if k not in used]
        if free and draw(st.integers(0, 3)):
          a = draw(st.sampled_from(free))
          used.add(a)
          ags.append(a)
        else:
          ags.append(None)
      ks = []
      for _ in range(K):
        ks.append(dict(c=draw(st.sampled_from([0.0, 0.125, 0.25, 0.5, 0.7, 1.0])),
                       tr=[draw(motion.trajectory(cfg, tracks[a], [tracks[x] for x in range(A) if x != a]))
                           if a is not None else [(9.0, 9.0)] * cfg['steps'] for a in ags]))
      pred.append(dict(ags=ags, ks=ks))
    for k, t in enumerate(tracks):
      for j, v in enumerate(t['v']):
        if not v:
          t['s'][j] = [0.0] * 7
      if draw(st.integers(0, 9)) == 0:  # valid, but without an extent
        z = draw(st.integers(0, len(t['s']) - 1))
        t['s'][z] = list(t['s'][z][:5]) + [0.0, draw(st.sampled_from([0.0, 2.0]))]
    batch.append(dict(tracks=tracks, pred=pred, ids=draw(st.lists(st.one_of(
        st.sampled_from([0, 1, 2, 256, 65536, 65537, 2**24, 2**24 + 1, 2**31 - 1]), st.integers(0, 9)),
                                                                  min_size=A, max_size=A, unique=True))))
  names = draw(st.permutations(['s', 'other', '', '9', 'é']))[:nb]
  return dict(cfg=cfg, A=A, M=M, K=K, N=N, batch=batch, names=names, pad=draw(st.integers(0, A - 1)))


def check_motion(case, ctx):
  mp = wod.pb('protos.motion_metrics_pb2')
  cfg = case['cfg']
  A, M, K, N = (case[k] for k in 'AMKN')
  B, TP, TG = len(case['batch']), cfg['steps'], cfg['hist'] + cfg['future'] + 1
  traj, score = np.zeros((B, M, K, N, TP, 2), 'float32'), np.zeros((B, M, K), 'float32')
  gt, valid = np.zeros((B, A, TG, 7), 'float32'), np.zeros((B, A, TG), bool)
  idx, mask = np.full((B, M, N), case['pad'], 'int64'), np.zeros((B, M, N), bool)
  typ, oid = np.zeros((B, A), 'int64'), np.zeros((B, A), 'int64')
  scs, preds = [], []
  wanted = 0
  for b, s in enumerate(case['batch']):
    for a, t in enumerate(s['tracks']):
      for k in range(TG):
        x, y, h, vx, vy, le, wi = t['s'][k]
        gt[b, a, k] = [x, y, le, wi, h, vx, vy]
        valid[b, a, k] = t['v'][k]
      typ[b, a], oid[b, a] = t['t'], s['ids'][a]
    sc = wod.pb('protos.scenario_pb2').Scenario(scenario_id=case['names'][b])
    pr = mp.ScenarioPredictions(scenario_id=case['names'][b])
    where = {}
    for a, t in enumerate(s['tracks']):
      if any(t['v']):
        where[a] = len(sc.tracks)
        x = sc.tracks.add(id=s['ids'][a], object_type=t['t'])
        for k in range(TG):
          q = [float(v) for v in gt[b, a, k]]
          x.states.add(center_x=q[0], center_y=q[1], length=q[2], width=q[3], heading=q[4], velocity_x=q[5], velocity_y=q[6],
                       valid=t['v'][k])
    for m, p in enumerate(s['pred']):
      for n, a in enumerate(p['ags']):
        if a is not None:
          idx[b, m, n], mask[b, m, n] = a, True
          sc.tracks_to_predict.add(track_index=where[a])
          wanted += 1
      for k, o in enumerate(p['ks']):
        score[b, m, k] = o['c']
        for n, pts in enumerate(o['tr']):
          traj[b, m, k, n] = pts
      if any(a is not None for a in p['ags']):
        mm = pr.multi_modal_predictions.add()
        for k in range(K):
          j = mm.joint_predictions.add(confidence=float(score[b, m, k]))
          for n, a in enumerate(p['ags']):
            if a is not None:
              j.trajectories.add(object_id=s['ids'][a], center_x=[float(v) for v in traj[b, m, k, n, :, 0]],
                                 center_y=[float(v) for v in traj[b, m, k, n, :, 1]])
    scs.append(sc.SerializeToString())
    preds.append(pr.SerializeToString())
  config = motion.config_proto(cfg)
  out = ctx.env['motion'].call('bundle', config.SerializeToString(), pack(preds), pack(scs), i([0] * B), i(0))
  if not int(ui(out[0])[0]):
    ctx.label('not well-formed')
    return
  ms = mp.MotionMetrics.FromString(out[1])
  got = must(ctx, 'MotionMetrics', {'config': ('s', config.SerializeToString())},
             [tensor(traj), tensor(score), tensor(gt), tensor(valid), tensor(idx), tensor(mask), tensor(typ), tensor(oid),
              tensor([n.encode() for n in case['names']], 'string')])
  found = {(x.object_filter, x.measurement_step): x for x in ms.metrics_bundles}
  want = []
  for t in (1, 2, 3):
    for k, *_ in cfg['ms']:
      x = found.get((t, k))
      want.append([-1.0] * 5 if x is None else [x.min_ade, x.min_fde, x.miss_rate, x.overlap_rate, x.mean_average_precision])
  for a, w, name in zip(got, zip(*want), ('minADE', 'minFDE', 'miss rate', 'overlap rate', 'mAP')):
    ctx.close(a, list(w), name + ' per type and step', 1e-5, 1e-5)
  ctx.equal(len(got), 5, 'outputs')
  ctx.nontrivial(wanted > 1 and any(w[0] > 0 for w in want))
  ctx.label('all absent' if all(w[0] < 0 for w in want) else 'measured', 'joint' if N > 1 else 'marginal')


# ---- matching ------------------------------------------------------------------
@st.composite
def match_cases(draw):
  kind = draw(st.sampled_from([1, 1, 2, 2, 3]))
  c = dict(kind=kind, width=draw(st.sampled_from({1: [7], 2: [7, 5], 3: [4]}[kind])), type=draw(st.sampled_from([1, 2])),
           thr=det.thresholds(draw), gens=[])
  if kind != 3 and draw(st.integers(0, 3)) == 0:
    c['let'] = dict(s=[0.0, 0.0, 0.0], pct=0.1, tol=0.5, align=draw(st.sampled_from([1, 2, 3])))
  n, m = draw(st.integers(0, 5)), draw(st.integers(0, 5))
  c['batch'] = []
  for _ in range(draw(st.integers(1, 3))):
    an = draw(det.anchors([1]))
    sides = []
    for cnt, is_pd in ((n, True), (m, False)):
      objs = []
      for k in range(cnt):
        o = draw(det.obj(an, [1], k, is_pd))
        if draw(st.integers(0, 5)) == 0:
          o['b'][draw(st.sampled_from([3, 4, 5]))] = draw(st.sampled_from([0.0, -1.0]))
        objs.append(o['b'])
      sides.append(objs)
    c['batch'].append(sides)
  c['n'], c['m'] = n, m
  return c


def check_match(case, ctx):
  w = case['width']
  cfg = det.config_proto(case)
  f32 = lambda b: [float(np.float32(v)) for v in b]
  ten = lambda k, n: tensor(np.array([[row(dict(b=b), w) for b in s[k]] for s in case['batch']], 'float32').reshape(
      len(case['batch']), n, w))
  got = must(ctx, 'Match', {'config': ('s', cfg.SerializeToString())}, [ten(0, case['n']), ten(1, case['m'])])
  want = []
  skipped = 0
  for k, sides in enumerate(case['batch']):
    objs, keep = [], []
    for s in sides:
      o = [dict(b=from_row(dict(b=b), w), t=1, s=1.0) for b in s]
      if w == 7:
        for x in o:
          x['b'][2] += x['b'][5] / 2
      objs.append(o)
      keep.append([j for j, x in enumerate(o) if x['b'][3] > 0 and x['b'][4] > 0 and (case['kind'] != 1 or x['b'][5] > 0)])
      skipped += len(o) - len(keep[-1])
    # Only the valid boxes are given to the matcher.
    p, g = [[o[j] for j in q] for o, q in zip(objs, keep)]
    out = ctx.env['det'].call('match', cfg.SerializeToString(), det.packed(p), det.packed(g), i(list(range(len(p)))),
                              i(list(range(len(g)))), i(0))
    iou, aff, pm = np.reshape(ud(out[0]), (len(p), len(g))), ud(out[3]), [int(v) for v in ui(out[4])]
    for a, b in enumerate(pm):
      if b >= 0:
        la = np.reshape(aff, (len(p), len(g)))[a, b] if len(aff) else 1.0
        want.append((keep[0][a] + k * case['n'], keep[1][b] + k * case['m'], iou[a, b], la))
  cols = [list(c) for c in zip(*want)] if want else [[]] * 4
  ctx.equal([a.dtype.name for a in got], ['int32', 'int32', 'float32', 'float32'], 'output types')
  order = np.argsort(got[0], kind='stable')
  ctx.equal([a[order].tolist() for a in got[:2]], cols[:2], 'matched pairs')
  ctx.close(got[2][order], cols[2], 'IoU', 1e-6)
  ctx.close(got[3][order], cols[3], 'longitudinal affinity', 1e-6)
  ctx.nontrivial(len(want) > 1 and len(case['batch']) > 1)
  if skipped:
    ctx.label('empty boxes')


# ---- camera ------------------------------------------------------------------
@st.composite
def camera_cases(draw):
  c = draw(C20.cases())
  c['double'] = draw(st.booleans())
  c['depth'] = draw(st.booleans())
  if draw(st.integers(0, 3)) == 0:
    c['cam']['shutter'] = camera.GLOBAL
  return c


def check_camera(case, ctx):
  dt = np.float64 if case['double'] else np.float32
  cam = case['cam']
  cal, im = camera.calibration(cam), camera.image_proto(cam['images'][-1])
  num = lambda x: np.array(x, dt)
  ext, intr = num(list(cal.extrinsic.transform)).reshape(4, 4), num(list(cal.intrinsic))
  meta = np.array([cal.width, cal.height, cal.rolling_shutter_direction], 'int32')
  v = im.velocity
  info = num(list(im.pose.transform) + [v.v_x, v.v_y, v.v_z, v.w_x, v.w_y, v.w_z, im.pose_timestamp, im.shutter,
                                        im.camera_trigger_time, im.camera_readout_done_time])
  pts = num([list(camera.world(cam, p)) + p[3:] for p in case['pts']]).reshape(-1, 6)
  pix = num([[a * cam['w'], b * cam['h'], z] for a, b, z in case['pix']]).reshape(-1, 3)
  # The library gets what the tensors say.
  cal.extrinsic.transform[:] = ext.ravel().tolist()
  cal.intrinsic[:] = intr.tolist()
  q = info.tolist()
  im.pose.transform[:] = q[:16]
  (v.v_x, v.v_y, v.v_z, v.w_x, v.w_y, v.w_z) = q[16:22]
  (im.pose_timestamp, im.shutter, im.camera_trigger_time, im.camera_readout_done_time) = q[22:]
  out = ctx.env['drv'].call('camera', cal.SerializeToString(), pack([im.SerializeToString()]),
                            d(pts.astype(float).ravel()), i(0), d(pix.astype(float).ravel()))
  moving, static, _, back, _ = [np.reshape(ud(o), (-1, w)) for o, w in zip(out, (4, 4, 3, 6, 1))]
  base = [tensor(ext), tensor(intr), tensor(meta), tensor(info)]
  T = ('t', 'd' if case['double'] else 'f')
  attrs = {'T': T, 'return_depth': ('b', '1' if case['depth'] else '0')}
  for name, want, ins in (('WorldToImage', static, [tensor(pts[:, :3])]),
                          ('WorldToImageMovingPoint', moving, [tensor(pts[:, :3]), tensor(pts[:, 3:])])):
    got, = must(ctx, name, attrs, base + ins)
    want = np.where(want == -777, 0.0, want)  # untouched outputs
    w = np.concatenate([want[:, 1:3]] + ([want[:, 3:4]] if case['depth'] else []) + [want[:, :1]], 1)
    ctx.require(got.dtype == dt, 'output type %s', got.dtype)
    ctx.close(got, w.astype(dt), name, 0, 0)
  got, = must(ctx, 'ImageToWorld', {'T': T}, base + [tensor(pix)])
  ctx.close(got, back[:, :3].astype(dt), 'ImageToWorld', 0, 0)
  ctx.nontrivial(bool(static[:, 0].any()))
  ctx.label('double' if case['double'] else 'float', 'depth' if case['depth'] else 'no depth')


# ---- bad configurations --------------------------------------------------------
@st.composite
def bad_cases(draw):
  return dict(op=draw(st.sampled_from(['DetectionMetrics', 'DetectionMetricsState', 'DetectionMetricsResult', 'TrackingMetrics',
                                       'MotionMetrics', 'Match'])),
              raw=draw(st.binary(min_size=1, max_size=12)), kind=draw(st.integers(0, 3)), seed=draw(st.integers(0, 2**20)))


def parses(cls, raw):
  """Text that is not UTF-8 in a string field, and closing tags without their
  group, are judged differently by the C++ and Python parsers."""
  try:
    m = cls.FromString(raw)
    return True
  except Exception:  # pylint: disable=broad-except
    return False


def check_bad(case, ctx):
  raw = case['raw']
  if case['kind'] == 0:
    raw = b'\xff' + raw  # field 31.. with wire type 7: never valid
  elif case['kind'] == 1:
    raw = b'\x0a\x7f' + raw  # a length beyond the end
  name = case['op']
  cls = wod.pb('protos.motion_metrics_pb2').MotionMetricsConfig if name == 'MotionMetrics' else wod.pb('protos.metrics_pb2').Config
  if case['kind'] == 3:  # valid, but for what the op needs
    raw = det.config_proto(dict(gens=[(1, [])], thr=[0.5] * 5, kind=case['seed'] % 4, type=1, cut=[0.5])).SerializeToString()
    if name == 'MotionMetrics':
      return
  n_in = {'DetectionMetrics': 10, 'DetectionMetricsState': 10, 'DetectionMetricsResult': 1, 'TrackingMetrics': 14,
          'MotionMetrics': 9, 'Match': 2}[name]
  rnd = random.Random(case['seed'])
  if name == 'Match':
    w, n, m = rnd.choice([4, 5, 7]), rnd.randint(0, 2), rnd.randint(0, 2)
    shape = [[2, n, w], [2, m, w]]
    mutation = rnd.choice(['none', 'rank', 'width', 'batch']) if case['kind'] == 3 else 'none'
    if mutation == 'rank':
      shape[rnd.randint(0, 1)] = rnd.choice([[2, w], [w], [1, 2, n, w]])
    elif mutation == 'width':
      shape[rnd.randint(0, 1)][2] = w + 1
    elif mutation == 'batch':
      shape[rnd.randint(0, 1)][0] = rnd.choice([1, 3, 0])
    out, err = run_op(ctx, name, {'config': ('s', raw)}, [tensor(np.ones(s, 'float32')) for s in shape])
    if case['kind'] == 3:
      ok = mutation == 'none' and (case['seed'] % 4, w) in ((3, 4), (2, 5), (2, 7), (1, 7))
      ctx.require((out is not None) == ok, 'Match of %s with box type %d: %s', shape, case['seed'] % 4, err or 'accepted')
      ctx.nontrivial(not ok)
      ctx.label('Match ' + mutation)
      return
  else:
    if parses(cls, raw) and case['kind'] != 3:
      ctx.label('parses')
      return
    if case['kind'] == 3 and case['seed'] % 4:
      return
    out, err = run_op(ctx, name, {'config': ('s', raw)}, [tensor(np.zeros(0, 'float32'))] * n_in)
  if case['kind'] == 3 or not parses(cls, raw):
    ctx.require(out is None and err.startswith('construct:'), '%s with an unusable configuration %r: %s', name, raw, err or 'accepted')
    ctx.nontrivial()
    ctx.label(name)


SUBS = [
    Sub('detection', det_cases, check_detection, 250, rule='several frames and a positive average precision'),
    Sub('tracking', trk_cases, check_tracking, 300, rule='several sequences and a positive MOTA'),
    Sub('motion', motion_cases, check_motion, 250, rule='more than one agent predicted and measured'),
    Sub('match', match_cases, check_match, 500, rule='more than one pair matched in a batch of several'),
    Sub('camera', camera_cases, check_camera, 500, rule='a visible point'),
    Sub('configurations', bad_cases, check_bad, 400, rule='input that must be refused'),
]
