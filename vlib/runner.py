"""Runs the sub-checks of one property: python -m vlib.runner C01 [--replay F].

The parent builds what the check needs from /repo's working tree, then starts
worker processes; each worker runs its share of every sub-check's cases with a
Hypothesis seed derived from VERIF_SEED, the sub-check and the worker number.
"""
import functools
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback
import types

from vlib import core
from vlib.build import SRC
from vlib.core import Ctx, Known, Violation, jsonable, unjson

SHRINK_S = 45.0
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)


def tier():
  return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


def seed():
  try:
    return int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    return 1


def key_of(case):
  return hashlib.blake2b(
      json.dumps(jsonable(case), sort_keys=True, default=str).encode(),
      digest_size=8).hexdigest()


def known_ids(pid):
  path = os.path.join(core.VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return {}
  with open(path) as f:
    data = json.load(f)
  return {e['id']: e for e in data.get('known', []) if e['property'] == pid}


def unsupported(e):
  """e came from something the TensorFlow stand-in does not provide."""
  while e is not None:
    if type(e).__name__ == 'Unsupported':
      return True
    m = str(e)
    if isinstance(e, AttributeError) and re.match(
        r"('types.SimpleNamespace'|'Tensor'|'Variable'|module 'tensorflow)", m):
      return True
    if isinstance(e, TypeError):
      f = re.match(r"(?:.*\.)?(\w+)\(\) (got an unexpected keyword|takes )", m)
      if f and ('def %s(' % f.group(1)) in shim_text():
        return True
    e = e.__cause__ or e.__context__
  return False


@functools.lru_cache(None)
def shim_text():
  if 'tensorflow' not in sys.modules:
    return ''
  with open(sys.modules['tensorflow'].__file__) as f:
    return f.read()


class Worker:

  def __init__(self, mod, pid, widx, nworkers, env):
    self.mod = mod
    self.pid = pid
    self.widx = widx
    self.n = nworkers
    self.env = env
    self.stats = {}
    self.known = {}
    self.failure = None
    self.allowed = known_ids(pid)

  def evaluate(self, sub, case, record=True):
    from vlib.driver import DriverCrash
    ctx = Ctx(self.env)
    try:
      sub.check(case, ctx)
    except Known as k:
      if k.fid not in self.allowed:
        raise Violation('%s (%s)' % (k, k.fid)) from k
      self.known[k.fid] = str(k)
      ctx.label('known:' + k.fid)
    except DriverCrash as e:
      raise Violation('crash: %s' % e) from e
    except Violation as e:
      # The stand-in library lacks what the code calls: nothing is known.
      if not unsupported(e.__cause__):
        raise
      ctx.label('undecided')
    except Exception as e:  # pylint: disable=broad-except
      # Raised inside the repository's Python code: checks only pass it input
      # it has to accept, or catch the documented error themselves.
      tb = traceback.extract_tb(e.__traceback__)
      if unsupported(e):
        ctx.label('undecided')
      elif not any(t.filename.startswith(SRC + '/') for t in tb):
        # Judging the same case works on a result of the documented structure.
        if not ctx.answered or not isinstance(
            e, (AttributeError, IndexError, KeyError, TypeError, ValueError)
        ) or isinstance(getattr(e, 'obj', None), types.ModuleType):
          raise
        raise Violation('result of unexpected structure: %s: %s' % (
            type(e).__name__, e)) from e
      else:
        raise Violation('%s: %s (%s)' % (type(e).__name__, e, ', '.join(
            '%s:%d' % (os.path.basename(t.filename), t.lineno)
            for t in tb[-4:]))) from e
    if record:
      st = self.stats[sub.name]
      st['evaluations'] += 1
      for l in ctx.labels:
        st['labels'][l] = st['labels'].get(l, 0) + 1
      if ctx.non_trivial:
        k = key_of(case)
        if k not in st['hashes']:
          st['hashes'].add(k)
          n = len(st['hashes'])
          if n in (1, 7, 40):
            st['samples'].append(repr(case)[:900])

  def run_sub(self, sidx, sub):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    total = sub.thorough if tier() == 'thorough' else sub.quick
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    count = max(1, int(total * scale) // self.n)
    self.stats.setdefault(sub.name, dict(
        evaluations=0, hashes=set(), labels={}, samples=[], rule=sub.rule,
        wall=0.0))
    state = dict(best=None, msg=None, t0=None)
    t_start = time.time()

    def body(case):
      k = None
      if state['t0'] is not None:
        k = key_of(case)
        if time.time() - state['t0'] > SHRINK_S and k != state['key']:
          return
        if k == state['key']:
          raise Violation(state['msg'])
      try:
        self.evaluate(sub, case, record=state['t0'] is None)
      except Violation as e:
        state.update(best=case, msg=str(e), key=k or key_of(case))
        if state['t0'] is None:
          state['t0'] = time.time()
        raise Violation(str(e)) from None

    s = (seed() * 1000003 + sidx * 1009 + self.widx * 7919) % (1 << 62)
    test = given(sub.strategy())(body)
    test = settings(
        max_examples=count, database=None, deadline=None,
        report_multiple_bugs=False, print_blob=False,
        phases=[Phase.generate, Phase.target, Phase.shrink],
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example])(test)
    test = hypothesis.seed(s)(test)
    try:
      test()
    except Exception as e:  # pylint: disable=broad-except
      if state['best'] is None:
        raise
      del e
    self.stats[sub.name]['wall'] += time.time() - t_start
    if state['best'] is not None:
      # Confirm outside Hypothesis.
      for _ in range(3):
        try:
          self.evaluate(sub, state['best'], record=False)
        except Violation as e:
          self.failure = dict(sub=sub.name, case=jsonable(state['best']),
                              message=str(e))
          return
      raise RuntimeError('%s: failed once but not when re-run: %s\n%r' % (
          sub.name, state['msg'], state['best']))

  def run(self, only=None):
    for sidx, sub in enumerate(self.mod.SUBS):
      if only and sub.name not in only:
        continue
      self.run_sub(sidx, sub)
      if self.failure:
        break


def worker_main(pid, widx, n, out, only):
  mod = importlib.import_module('checks.' + pid)
  with open(os.path.join(os.path.dirname(out), 'env.json')) as f:
    env = json.load(f)
  env = mod.open_env(env) if hasattr(mod, 'open_env') else env
  w = Worker(mod, pid, widx, n, env)
  res = {}
  try:
    w.run(only)
  except Exception:  # pylint: disable=broad-except
    res['error'] = traceback.format_exc()[-6000:]
  if hasattr(mod, 'close_env'):
    mod.close_env(env)
  for st in w.stats.values():
    st['hashes'] = sorted(st['hashes'])
  res.update(stats=w.stats, failure=w.failure, known=w.known)
  with open(out, 'w') as f:
    json.dump(res, f)


def replay(pid, path):
  mod = importlib.import_module('checks.' + pid)
  with open(path) as f:
    rec = json.load(f)
  env = mod.prepare(tier()) if hasattr(mod, 'prepare') else {}
  env = mod.open_env(env) if hasattr(mod, 'open_env') else env
  sub = [s for s in mod.SUBS if s.name == rec['sub']][0]
  w = Worker(mod, pid, 0, 1, env)
  w.stats[sub.name] = dict(evaluations=0, hashes=set(), labels={}, samples=[])
  try:
    w.evaluate(sub, unjson(rec['case']))
  except Violation as e:
    print('sub-check %s: %s' % (sub.name, e))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
  print('replayed case holds')
  return 0


def main(argv):
  pid = argv[0]
  if '--worker' in argv:
    i = argv.index('--worker')
    worker_main(pid, int(argv[i + 1]), int(argv[i + 2]), argv[i + 3],
                argv[i + 4].split(',') if argv[i + 4] else None)
    return 0
  if '--replay' in argv:
    return replay(pid, argv[argv.index('--replay') + 1])
  only = argv[argv.index('--only') + 1] if '--only' in argv else ''
  t0 = time.time()
  mod = importlib.import_module('checks.' + pid)
  env = mod.prepare(tier()) if hasattr(mod, 'prepare') else {}
  t_build = time.time() - t0
  with tempfile.TemporaryDirectory(prefix='verif-') as tmp:
    with open(tmp + '/env.json', 'w') as f:
      json.dump(env, f)
    procs = []
    for k in range(WORKERS):
      out = '%s/w%d.json' % (tmp, k)
      log = open('%s/w%d.log' % (tmp, k), 'wb')
      procs.append((k, out, log, subprocess.Popen(
          [sys.executable, '-m', 'vlib.runner', pid, '--worker', str(k),
           str(WORKERS), out, only], stdout=log, stderr=log)))
    results = []
    errors = []
    for k, out, log, p in procs:
      p.wait()
      log.close()
      if not os.path.exists(out):
        with open(log.name, 'rb') as f:
          errors.append('worker %d ended %s: %s' % (
              k, p.returncode, f.read()[-3000:].decode(errors='replace')))
        continue
      with open(out) as f:
        r = json.load(f)
      if r.get('error'):
        errors.append('worker %d: %s' % (k, r['error']))
      results.append((k, r))
  wall = time.time() - t0
  subs = {}
  allhash = set()
  total = 0
  known = {}
  fails = []
  for k, r in results:
    known.update(r['known'])
    if r['failure']:
      fails.append((k, r['failure']))
    for name, st in r['stats'].items():
      d = subs.setdefault(name, dict(evaluations=0, hashes=set(), labels={},
                                     samples=[], rule=st['rule'], wall=0.0))
      d['evaluations'] += st['evaluations']
      d['hashes'] |= set(st['hashes'])
      d['wall'] = max(d['wall'], st['wall'])
      for l, c in st['labels'].items():
        d['labels'][l] = d['labels'].get(l, 0) + c
      if len(d['samples']) < 3:
        d['samples'] += st['samples'][-1:]
  samples = []
  for name, d in subs.items():
    total += d['evaluations']
    allhash |= {name + h for h in d['hashes']}
    samples += ['%s: %s' % (name, s) for s in d['samples'][:2]]
  ev = dict(
      property=pid, tier=tier(), seed=seed(), level=getattr(mod, 'LEVEL', 'exploration'),
      coverage=dict(
          evaluations=total, distinct_nontrivial=len(allhash),
          rule=getattr(mod, 'RULE', '') + ' '.join(
              '[%s] %s' % (n, d['rule']) for n, d in subs.items() if d['rule']),
          samples=samples[:40] or ['none'],
          sub_checks={n: dict(evaluations=d['evaluations'],
                              distinct_nontrivial=len(d['hashes']),
                              labels=d['labels'], wall_s=round(d['wall'], 1))
                      for n, d in subs.items()},
          build_s=round(t_build, 1), workers=WORKERS),
      assumptions=getattr(mod, 'ASSUMPTIONS', []),
      wall_s=round(wall, 2), violations=1 if fails else 0)
  os.makedirs(core.VERIF + '/evidence', exist_ok=True)
  path = '%s/evidence/%s.json' % (core.VERIF, pid)
  with open(path + '.tmp', 'w') as f:
    json.dump(ev, f, indent=1)
  os.replace(path + '.tmp', path)
  ids = known_ids(pid)
  for fid in sorted(ids):
    print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, ids[fid]['what']))
  if fails:
    order = {s.name: n for n, s in enumerate(mod.SUBS)}
    fails.sort(key=lambda x: (order[x[1]['sub']], x[0]))
    k, f = fails[0]
    os.makedirs(core.VERIF + '/replays', exist_ok=True)
    rp = '%s/replays/%s-%s.json' % (core.VERIF, pid, f['sub'])
    with open(rp, 'w') as fh:
      json.dump(dict(property=pid, seed=seed(), worker=k, **f), fh, indent=1)
    print('sub-check %s: %s' % (f['sub'], f['message'][:3000]))
    print('case: %s' % json.dumps(f['case'])[:2000])
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1
  if errors:
    print('ERROR in %s (%d workers):\n%s' % (pid, len(errors), errors[0][-2500:]))
    return 3
  print('%s: held on %d cases (%d distinct non-trivial) in %.1f s (build %.1f s)' % (
      pid, total, len(allhash), wall, t_build))
  if '-v' in argv:
    for n, d in subs.items():
      print('  %-28s %7d evals %7d nontriv %6.1fs %s' % (
          n, d['evaluations'], len(d['hashes']), d['wall'], d['labels']))
  return 0


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
