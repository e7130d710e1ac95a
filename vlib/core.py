"""Sub-checks: a Hypothesis strategy of plain data plus a check on one case."""
import os
import sys

for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
  if _p not in sys.path:
    sys.path.append(_p)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
  """The code under test broke the property on this case."""


class Known(Exception):
  """The case hits a listed known finding."""

  def __init__(self, fid, what=''):
    super().__init__(what)
    self.fid = fid


class Ctx:
  """What one evaluation of a case reports back."""

  def __init__(self, env=None):
    self.env = env or {}
    self.labels = []
    self.non_trivial = False
    self.answered = False

  def label(self, *names):
    self.labels.extend(names)

  def nontrivial(self, cond=True):
    if cond:
      self.non_trivial = True

  def require(self, cond, msg, *args):
    if not cond:
      if callable(msg):
        msg = msg()
      elif args:
        msg = msg % args
      raise Violation(msg)

  def fail(self, msg):
    raise Violation(msg)

  def close(self, got, want, msg, atol=1e-6, rtol=1e-6):
    """got == want within atol + rtol*|want|, elementwise; NaN equals NaN."""
    import numpy as np
    g = np.asarray(got, dtype=np.float64)
    w = np.asarray(want, dtype=np.float64)
    if g.shape != w.shape:
      raise Violation('%s: shape %s, expected %s' % (msg, g.shape, w.shape))
    with np.errstate(all='ignore'):
      ok = (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (
          np.isnan(g) & np.isnan(w))
    if not np.all(ok):
      idx = np.argwhere(~ok)
      k = tuple(idx[0]) if len(idx) else ()
      raise Violation('%s: at %s got %r, expected %r (%d of %d differ)' % (
          msg, list(map(int, k)), float(g[k]), float(w[k]), len(idx), g.size))

  def equal(self, got, want, msg):
    if got != want:
      raise Violation('%s: got %r, expected %r' % (msg, got, want))

  def call(self, fn, *args, **kwargs):
    """Runs code under test on valid input: an exception is a violation."""
    try:
      result = fn(*args, **kwargs)
      self.answered = True
      return result
    except (Violation, Known):
      raise
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      tb = traceback.extract_tb(e.__traceback__)
      where = ', '.join('%s:%d' % (os.path.basename(t.filename), t.lineno)
                        for t in tb[-4:])
      raise Violation('%s raised %s: %s (%s)' % (
          getattr(fn, '__name__', fn), type(e).__name__, e, where)) from e


class Sub:

  def __init__(self, name, strategy, check, quick=800, thorough=None,
               rule=''):
    self.name = name
    self.strategy = strategy
    self.check = check
    self.quick = quick
    self.thorough = thorough or quick * 20
    self.rule = rule


def jsonable(x):
  import base64
  import numpy as np
  if isinstance(x, bytes):
    return {'__b64__': base64.b64encode(x).decode()}
  if isinstance(x, tuple):
    return {'__t__': [jsonable(v) for v in x]}
  if isinstance(x, list):
    return [jsonable(v) for v in x]
  if isinstance(x, dict):
    return {'__d__': [[jsonable(k), jsonable(v)] for k, v in x.items()]}
  if isinstance(x, np.ndarray):
    return {'__np__': [str(x.dtype), list(x.shape), x.ravel().tolist()]}
  if isinstance(x, np.generic):
    return x.item()
  if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
    return {'__f__': repr(x)}
  if x is None or isinstance(x, (str, int, float, bool)):
    return x
  import pickle
  return {'__pk__': base64.b64encode(pickle.dumps(x)).decode()}


def unjson(x):
  import base64
  import numpy as np
  if isinstance(x, list):
    return [unjson(v) for v in x]
  if isinstance(x, dict):
    if '__b64__' in x:
      return base64.b64decode(x['__b64__'])
    if '__t__' in x:
      return tuple(unjson(v) for v in x['__t__'])
    if '__d__' in x:
      return {unjson(k): unjson(v) for k, v in x['__d__']}
    if '__np__' in x:
      dt, sh, v = x['__np__']
      return np.array(v, dtype=dt).reshape(sh)
    if '__f__' in x:
      return float(x['__f__'])
    if '__pk__' in x:
      import pickle
      return pickle.loads(base64.b64decode(x['__pk__']))
  return x
