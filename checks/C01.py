"""Box IoU against an independent clipping oracle."""
import math

from hypothesis import strategies as st

from vlib import drv, geo
from vlib.core import Sub
from vlib.driver import d, i, ud

prepare = drv.prepare('det_driver')
open_env, close_env = drv.open_env, drv.close_env
KIND = {'3d': 1, '2d': 2, 'aa': 3}
RULE = ('Box pairs are drawn independently, or derived one from the other '
        '(shared edge, corner, nesting, cross, small perturbation, half turns); '
        'a case is non-trivial when some pair overlaps with IoU strictly '
        'between 0 and 1. ')


@st.composite
def box(draw, far=True):
  off = draw(st.sampled_from([0.0, 0.0, 0.0, 1000.0, -20000.0])) if far else 0.0
  return [draw(geo.coord()) + off, draw(geo.coord()) - off, draw(geo.coord(10)),
          draw(geo.dim), draw(geo.dim), draw(geo.dim), draw(geo.heading)]


@st.composite
def related(draw, a):
  """A box placed in a's own frame."""
  how = draw(st.sampled_from(['rand', 'edge', 'nest', 'cross', 'tiny', 'same',
                              'turn', 'grid']))
  b = list(a)
  ux = uy = uz = 0.0
  if how == 'rand':
    ux, uy, uz = (draw(geo.f(-1.2, 1.2)) for _ in range(3))
    b[3:6] = [draw(geo.dim) for _ in range(3)]
    b[6] = draw(geo.heading)
  elif how == 'edge':
    ux, uy, uz = (draw(st.sampled_from([-1.0, 1.0, 0.0, 0.5, -0.5]))
                  for _ in range(3))
  elif how == 'nest':
    s = draw(geo.f(0.25, 0.96875))
    b[3:6] = [max(0.03125, x * s) for x in b[3:6]]
    if draw(st.booleans()):
      b[6] += draw(st.sampled_from([math.pi, math.pi / 2, -2 * math.pi]))
  elif how == 'cross':
    b[3], b[4] = b[4] * 2, max(0.03125, b[3] / 2)
    b[6] += draw(st.sampled_from([math.pi / 2, math.pi / 4, 0.0]))
  elif how == 'tiny':
    e = draw(st.sampled_from([1e-3, 1e-5, 1e-7, 1e-9, -1e-9, 1e-11]))
    k = draw(st.integers(0, 6))
    b[k] += e
    ux = draw(st.sampled_from([0.0, 1e-9, 1e-11]))
  elif how == 'turn':
    b[6] += draw(st.sampled_from([math.pi, 2 * math.pi, -4 * math.pi]))
  elif how == 'grid':
    ux, uy, uz = (draw(st.integers(-5, 5)) / 4 for _ in range(3))
    b[3:6] = [x * draw(st.sampled_from([0.5, 1.0, 2.0])) for x in b[3:6]]
  c, s = math.cos(a[6]), math.sin(a[6])
  x, y = ux * a[3], uy * a[4]
  b[0] += x * c - y * s
  b[1] += x * s + y * c
  b[2] += uz * a[5]
  b[3:6] = [min(40.0, max(0.03, x)) for x in b[3:6]]
  return b


@st.composite
def pairs(draw):
  a = draw(box())
  bs = [draw(st.one_of(related(a), related(a), box(False)))
        for _ in range(draw(st.integers(1, 4)))]
  return dict(a=a, bs=bs)


def check_pairs(case, ctx):
  a, bs = case['a'], case['bs']
  drvr = ctx.env['drv']
  for kind, num in KIND.items():
    one, batch = drvr.call('iou', i(num), d(a), d([x for b in bs for x in b]))
    one, batch = ud(one), ud(batch)
    back, _ = drvr.call('iou', i(num), d([x for b in bs for x in b]), d(a))
    back = ud(back)
    ctx.equal(int(batch[0]), len(bs), '%s: batch size' % kind)
    ctx.close(batch[1:], one, '%s: batch vs single' % kind, 1e-12, 0)
    for k, b in enumerate(bs):
      want = geo.iou(a, b, kind)
      ctx.require(0.0 <= one[k] <= 1.0, '%s: IoU %r out of range', kind, one[k])
      ctx.close(one[k], want, '%s: IoU of %r and %r' % (kind, a, b), 2e-6, 0)
      ctx.close(back[k], want, '%s: IoU swapped of %r and %r' % (kind, b, a),
                2e-6, 0)
      if 0.001 < want < 0.999:
        ctx.nontrivial()
        ctx.label(kind + ':partial')
      elif want >= 0.999:
        ctx.label(kind + ':full')
      else:
        ctx.label(kind + ':none')


@st.composite
def scales(draw):
  """Very small, very large and very elongated boxes."""
  a = draw(box(False))
  a[:3] = [x / 50 for x in a[:3]]
  b = draw(related(a))
  stretch = [draw(st.sampled_from([1.0, 1.0, 20.0, 400.0])) for _ in range(3)]
  s = draw(st.sampled_from([0.02, 0.3, 1.0, 30.0, 700.0, 20000.0]))
  for p in (a, b):
    for k in range(3):
      p[3 + k] = min(9e5, max(0.0101, p[3 + k] * s * stretch[k]))
    p[:3] = [x * s for x in p[:3]]
  return dict(a=a, bs=[b, list(a)])


@st.composite
def moved(draw):
  a = draw(box(False))
  b = draw(related(a))
  return dict(a=a, b=b, theta=draw(geo.f(-7, 7)),
              t=[draw(geo.f(-5000, 5000)) for _ in range(2)] + [draw(geo.f(-50, 50))],
              turns=draw(st.integers(-3, 3)), swap=draw(st.booleans()))


def _move(b, case):
  c, s = math.cos(case['theta']), math.sin(case['theta'])
  return [b[0] * c - b[1] * s + case['t'][0], b[0] * s + b[1] * c + case['t'][1],
          b[2] + case['t'][2], b[3], b[4], b[5], b[6] + case['theta']]


def check_moved(case, ctx):
  a, b = case['a'], case['b']
  m, n = _move(a, case), _move(b, case)
  n[6] += case['turns'] * 2 * math.pi
  if case['swap']:  # the same rectangle described from its other side
    m[3], m[4], m[6] = m[4], m[3], m[6] + math.pi / 2
  for kind in ('3d', '2d'):
    x = ud(ctx.env['drv'].call('iou', i(KIND[kind]), d(a), d(b))[0])[0]
    y = ud(ctx.env['drv'].call('iou', i(KIND[kind]), d(m), d(n))[0])[0]
    ctx.close(y, x, kind + ': IoU after moving both boxes', 1e-5, 0)
    same = ud(ctx.env['drv'].call('iou', i(KIND[kind]), d(m), d(m))[0])[0]
    ctx.close(same, 1.0, kind + ': IoU with itself', 1e-6, 0)
    ctx.nontrivial(0.001 < x < 0.999)
  x = ud(ctx.env['drv'].call('iou', i(3), d(a), d(b))[0])[0]
  a2, b2 = list(a), list(b)
  a2[6], b2[6] = case['theta'], case['t'][2]
  a2[2] += 7
  y = ud(ctx.env['drv'].call('iou', i(3), d(a2), d(b2))[0])[0]
  ctx.close(y, x, 'axis-aligned IoU ignores heading and z', 1e-9, 0)
  a3, b3 = list(a), list(b)
  a3[2] += case['t'][2]
  b3[5] += 1
  x = ud(ctx.env['drv'].call('iou', i(2), d(a), d(b))[0])[0]
  y = ud(ctx.env['drv'].call('iou', i(2), d(a3), d(b3))[0])[0]
  ctx.close(y, x, '2D IoU ignores z and height', 1e-9, 0)


@st.composite
def degenerate(draw):
  a = draw(box(False))
  b = draw(related(a))
  b[draw(st.integers(3, 4))] = draw(st.sampled_from([0.0, -1.0, -0.0, 1e-5, -1e-9]))
  return dict(a=a, b=b, k=draw(st.integers(0, 2)), huge=draw(st.sampled_from([1e6, 1.5e6, 1e12, 1e200, math.inf])))


def check_degenerate(case, ctx):
  for kind, num in KIND.items():
    for p, q in ((case['a'], case['b']), (case['b'], case['a']),
                 (case['b'], case['b'])):
      v = ud(ctx.env['drv'].call('iou', i(num), d(p), d(q))[0])[0]
      ctx.equal(v, 0.0, kind + ': IoU with a degenerate box')
  # Without height there is no volume, but there is an area.
  flat_, b = list(case['a']), list(case['a'])
  flat_[5] = min(case['b'][3:5])
  call = lambda num, p, q: ud(ctx.env['drv'].call('iou', i(num), d(p), d(q))[0])[0]
  ctx.equal([call(1, flat_, b), call(1, b, flat_), call(1, flat_, flat_)], [0.0] * 3, '3d: IoU with a box without height')
  for num in (2, 3):
    ctx.close(call(num, flat_, b), 1.0, '2D IoU of a box without height', 1e-6, 0)
  # A dimension of a million metres or more is an error, in any place.
  huge = list(case['a'])
  huge[3 + case['k']] = case['huge']
  for num in (1, 2, 3):
    ctx.equal([call(num, p, q) for p, q in ((huge, case['a']), (case['a'], huge), (huge, huge))], [0.0] * 3, 'IoU of a box of absurd size')
  ctx.nontrivial()


SUBS = [
    Sub('pairs', pairs, check_pairs, quick=16000),
    Sub('scales', scales, check_pairs, quick=4000),
    Sub('moved', moved, check_moved, quick=6000),
    Sub('degenerate', degenerate, check_degenerate, quick=1200),
]
