"""Planar geometry primitives against exact (rational) geometry."""
from fractions import Fraction as Fr
import math

from hypothesis import strategies as st

from vlib import drv, geo
from vlib.core import Sub
from vlib.driver import d, i, ud, ui, unpack

prepare = drv.prepare('geom_driver')
open_env, close_env = drv.open_env, drv.close_env
NAN = float('nan')


# ---- generators -----------------------------------------------------------
def grid(n=8, q=4):
  return st.integers(-n * q, n * q).map(lambda k: k / q)


@st.composite
def convex(draw, max_n=28, lim=40):
  """A convex CCW polygon with dyadic vertices: sorted edge vectors."""
  n = draw(st.integers(3, max_n))
  while True:
    vs = [(draw(st.integers(-lim, lim)), draw(st.integers(-lim, lim)))
          for _ in range(n - 1)]
    sx, sy = sum(v[0] for v in vs), sum(v[1] for v in vs)
    vs.append((-sx, -sy))
    vs = [v for v in vs if v != (0, 0)]
    dirs = set(math.atan2(y, x) for x, y in vs)
    if len(dirs) >= 3 or (len(dirs) == 2 and abs(
        abs(max(dirs) - min(dirs)) - math.pi) > 1e-9):
      break
    vs = [(1, 0), (0, 1), (-1, -1)]
    break
  # Exact angular order by half plane and cross product.
  import functools

  def half(v):
    return 0 if (v[1] > 0 or (v[1] == 0 and v[0] > 0)) else 1

  def cmp(a, b):
    if half(a) != half(b):
      return half(a) - half(b)
    return -((a[0] * b[1] - a[1] * b[0]) > 0) + (
        (a[0] * b[1] - a[1] * b[0]) < 0)
  vs.sort(key=functools.cmp_to_key(cmp))
  x, y = draw(st.integers(-40, 40)), draw(st.integers(-40, 40))
  pts = []
  for vx, vy in vs:
    pts.append((x / 8, y / 8))
    x, y = x + vx, y + vy
  return pts


def frac(pts):
  return [(Fr(x), Fr(y)) for x, y in pts]


def area2(p):
  return sum(p[k][0] * p[(k + 1) % len(p)][1] - p[(k + 1) % len(p)][0] * p[k][1]
             for k in range(len(p)))


def cross(o, a, b):
  return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def inside(p, q):
  n = len(p)
  return all(cross(p[k], p[(k + 1) % n], q) >= 0 for k in range(n))


def flat(pts):
  return [c for p in pts for c in p]


# ---- polygons -------------------------------------------------------------
@st.composite
def polygons(draw):
  pts = draw(convex())
  dup = draw(st.lists(st.integers(0, len(pts) - 1), max_size=3))
  ops = draw(st.lists(st.tuples(
      st.one_of(st.just('shift'), st.just(0.0), geo.heading),
      grid(), grid(), grid(20), grid(20)), max_size=4))
  qs = [(draw(grid(40)), draw(grid(40))) for _ in range(draw(st.integers(1, 6)))]
  # Vertices, points on edges, just off them, between vertices.
  n = len(pts)
  for _ in range(draw(st.integers(1, 10))):
    k, m = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    t = draw(st.sampled_from([0.0, 0.5, 0.25, 1.0, -0.25, 1.25]))
    e = draw(st.sampled_from([0.0, 0.0, 0.0625, -0.0625]))
    g = draw(st.sampled_from([0.0, 0.0, 0.0625, -0.0625]))
    if draw(st.booleans()):
      m = (k + 1) % n
    qs.append((pts[k][0] + (pts[m][0] - pts[k][0]) * t + e,
               pts[k][1] + (pts[m][1] - pts[k][1]) * t + g))
  return dict(pts=pts, dup=dup, ops=ops, qs=qs)


def check_polygon(case, ctx):
  pts = [tuple(p) for p in case['pts']]
  given = []
  for k, p in enumerate(pts):
    given += [p] * (1 + sum(1 for j in case['dup'] if j == k))
  if 0 in case['dup']:  # the first point again at the end
    given = pts + pts[:1]
  rows, exact = [], True
  for op in case['ops']:
    if op[0] == 'shift':
      rows += [NAN, 0, 0, op[3], op[4]]
    else:
      rows += list(op)
      exact = exact and op[0] == 0.0
  cur = [(x, y) for x, y in pts]
  qs = [tuple(q) for q in case['qs']]
  for op in case['ops']:
    a = 0.0 if op[0] == 'shift' else op[0]
    c, s = (1.0, 0.0) if a == 0 else (math.cos(a), math.sin(a))
    cx, cy = (0.0, 0.0) if op[0] == 'shift' else (op[1], op[2])

    def mv(p):
      x, y = p[0] - cx, p[1] - cy
      return (x * c - y * s + cx + op[3], x * s + y * c + cy + op[4])
    cur = [mv(p) for p in cur]
    qs = [mv(q) for q in qs]
  got, q, ins = ctx.env['drv'].call('poly', d(flat(given)), d(rows), d(flat(qs)))
  got, q, ins = ud(got), ud(q), ui(ins)
  tol = 0 if exact else 1e-9
  got = got.reshape(-1, 2)
  ctx.equal(len(got), len(pts), 'number of vertices')
  # The vertices are the given ones up to where the cycle starts.
  ctx.close(got, cur, 'vertices', tol, tol)
  fp = frac(pts)
  ctx.close(q[0], float(area2(fp) / 2), 'area', tol, tol)
  ctx.close(q[1:5], [min(p[0] for p in cur), min(p[1] for p in cur),
                     max(p[0] for p in cur), max(p[1] for p in cur)],
            'bounding box', tol, tol)
  ctx.equal(int(q[5]), len(pts), 'NumPoints')
  for k, p in enumerate(case['qs']):
    want = inside(fp, (Fr(p[0]), Fr(p[1])))
    if not exact:  # skip points (nearly) on the boundary
      n = len(fp)
      ms = [abs(cross(fp[j], fp[(j + 1) % n], (Fr(p[0]), Fr(p[1]))))
            for j in range(n)]
      if min(ms) < Fr(1, 10**6):
        continue
    ctx.equal(bool(ins[2 * k]), want, 'PointInside %r of %r' % (p, pts))
    ctx.equal(bool(ins[2 * k + 1]), want, 'PointInside(x, y)')
    ctx.label('inside' if want else 'outside')
  ctx.nontrivial(len(pts) > 3)
  if len(pts) > 10:
    ctx.label('bisection')


@st.composite
def poly_pairs(draw):
  a = draw(convex(9, 24))
  how = draw(st.sampled_from(['rand', 'same', 'shift', 'scale', 'edge']))
  if how == 'rand':
    b = draw(convex(9, 24))
  elif how == 'same':
    k = draw(st.integers(0, len(a) - 1))
    b = a[k:] + a[:k]
  elif how == 'shift':
    t = (draw(grid(4, 8)), draw(grid(4, 8)))
    b = [(x + t[0], y + t[1]) for x, y in a]
  elif how == 'scale':
    s = draw(st.sampled_from([0.5, 0.25, 2.0, 0.75]))
    k = draw(st.integers(0, len(a) - 1))
    b = [(a[k][0] + (x - a[k][0]) * s, a[k][1] + (y - a[k][1]) * s) for x, y in a]
  else:  # glued along one edge, by a half turn about its midpoint
    k = draw(st.integers(0, len(a) - 1))
    p, q = a[k], a[(k + 1) % len(a)]
    b = [(p[0] + q[0] - x, p[1] + q[1] - y) for x, y in a]
  return dict(a=a, b=b)


def check_poly_pair(case, ctx):
  a, b = frac(case['a']), frac(case['b'])
  r = ud(ctx.env['drv'].call('poly_pair', d(flat(case['a'])), d(flat(case['b'])))[0])
  want = float(geo.area(geo.clip(a, b)))
  ctx.close(r[:2], [want, want], 'intersection area', 1e-8, 1e-9)
  ctx.close(r[4:], [float(area2(a) / 2), float(area2(b) / 2)], 'areas', 0, 0)
  if want > 0:
    ctx.require(r[2] == 1 and r[3] == 1,
                'MaybeHasIntersectionWith is false for overlapping polygons')
  ctx.nontrivial(0 < want < min(r[4], r[5]))
  ctx.label('overlap' if want > 0 else 'no overlap')


@st.composite
def hulls(draw):
  pts = draw(convex(12, 30))
  # Merge collinear runs so that every vertex is a strict corner.
  n = len(pts)
  pts = [pts[k] for k in range(n)
         if cross(pts[k - 1], pts[k], pts[(k + 1) % n]) != 0]
  kind = draw(st.sampled_from(['ccw', 'cw', 'dent', 'star', 'flat']))
  k = draw(st.integers(0, len(pts) - 1))
  if kind == 'cw':
    pts = pts[::-1]
  elif kind == 'flat':  # an extra vertex in the middle of an edge
    p, q = pts[k], pts[(k + 1) % len(pts)]
    pts = pts[:k + 1] + [((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)] + pts[k + 1:]
  elif kind == 'dent':
    n = len(pts)
    p, q = pts[k], pts[(k + 1) % n]
    c = (sum(x for x, _ in pts) / n, sum(y for _, y in pts) / n)
    m = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
    pts = pts[:k + 1] + [((m[0] + c[0]) / 2, (m[1] + c[1]) / 2)] + pts[k + 1:]
    if draw(st.booleans()):
      pts = pts[::-1]
  elif kind == 'star':
    n = len(pts)
    step = 2
    if n < 5 or n % 2 == 0:
      kind = 'ccw'
    else:
      pts = [pts[(step * j) % n] for j in range(n)]
      if draw(st.booleans()):
        pts = pts[::-1]
  r = draw(st.integers(0, len(pts) - 1))
  return dict(pts=pts[r:] + pts[:r], kind=kind)


def check_hull(case, ctx):
  ok, ccw, ok2 = ui(ctx.env['drv'].call('hull', d(flat(case['pts'])))[0])
  kind = case['kind']
  ctx.label(kind)
  want = kind in ('ccw', 'cw', 'flat')
  ctx.equal((bool(ok), bool(ok2)), (want, want), 'IsConvexHull of a %s' % kind)
  if want:
    ctx.equal(bool(ccw), kind != 'cw', 'counter_clockwise of a %s' % kind)
  ctx.nontrivial()


# ---- boxes ----------------------------------------------------------------
CTOR = ['axis', 'heading', 'direction', 'corner', 'aabb']


@st.composite
def boxes(draw):
  kind = draw(st.integers(0, 4))
  c = lambda: draw(geo.coord(30))
  if kind == 0:
    p = (c(), c())
    h, l = draw(geo.heading), draw(geo.dim)
    spec = [0, p[0], p[1], p[0] + l * math.cos(h), p[1] + l * math.sin(h),
            draw(geo.dim)]
  elif kind == 1:
    spec = [1, c(), c(), draw(geo.heading), draw(geo.dim), draw(geo.dim)]
  elif kind == 2:
    h = draw(geo.heading)
    spec = [2, c(), c(), math.cos(h), math.sin(h), draw(geo.dim), draw(geo.dim)]
  elif kind == 3:
    spec = [3, draw(st.integers(0, 3)), c(), c(), draw(geo.heading),
            draw(geo.dim), draw(geo.dim)]
  else:
    x, y = c(), c()
    spec = [4, x, y, x + draw(geo.dim), y + draw(geo.dim)]
    if draw(st.integers(0, 3)) == 0:
      spec[4] = y + (spec[3] - x)
  ops = draw(st.lists(st.tuples(
      st.integers(0, 9), st.floats(0, 1, width=32), grid(20), grid(20),
      geo.heading, geo.dim, geo.dim, st.integers(0, 15)), min_size=1, max_size=8))
  return dict(spec=spec, via_set=draw(st.integers(0, 1)), ops=ops)


def rot(p, c, t):
  cs, sn = math.cos(t), math.sin(t)
  x, y = p[0] - c[0], p[1] - c[1]
  return (c[0] + x * cs - y * sn, c[1] + x * sn + y * cs)


def box_model(spec):
  k = int(spec[0])
  if k == 0:
    _, x0, y0, x1, y1, w = spec
    return [(x0 + x1) / 2, (y0 + y1) / 2, math.atan2(y1 - y0, x1 - x0),
            math.hypot(x1 - x0, y1 - y0), w]
  if k == 1:
    return list(spec[1:])
  if k == 2:
    return [spec[1], spec[2], math.atan2(spec[4], spec[3]), spec[5], spec[6]]
  if k == 3:
    _, idx, x, y, h, l, w = spec
    # Offsets of the corners from the centre, clockwise from rear left.
    ox, oy = [(-l / 2, w / 2), (l / 2, w / 2), (l / 2, -w / 2), (-l / 2, -w / 2)][int(idx)]
    cx, cy = rot((-ox, -oy), (0, 0), h)
    return [x + cx, y + cy, h, l, w]
  _, x0, y0, x1, y1 = spec
  lx, ly = x1 - x0, y1 - y0
  if lx >= ly:
    return [(x0 + x1) / 2, (y0 + y1) / 2, 0.0, lx, ly]
  return [(x0 + x1) / 2, (y0 + y1) / 2, math.pi / 2, ly, lx]


def box_apply(m, o):
  m = list(m)
  k = int(o[0])
  if k == 1:
    m[0], m[1] = o[1], o[2]
  elif k == 2:
    m[0] += o[1]
    m[1] += o[2]
  elif k == 3:
    m[2] += o[1]
  elif k == 4:
    m[0], m[1] = rot(m[:2], (0, 0), o[1])
    m[2] += o[1]
  elif k == 5:
    m[0], m[1] = rot(m[:2], (o[1], o[2]), o[3])
    m[2] += o[3]
  elif k == 6:
    m[3], m[4] = o[1], o[2]
  elif k == 7:
    m[4] = o[1]
  elif k == 8:
    m = box_model([0, o[1], o[2], o[3], o[4], m[4]])
  return m


def op_row(t):
  k, _, x, y, a, l, w, q = t
  args = {0: [], 1: [x, y], 2: [x, y], 3: [a], 4: [a], 5: [x, y, a], 6: [l, w],
          7: [w], 8: [x, y, x + l * math.cos(a), y + l * math.sin(a)], 9: []}[k]
  return [k] + args + [0] * (4 - len(args)) + [q]


def angle_close(ctx, got, want, msg, tol=1e-7):
  diff = (got - want) % (2 * math.pi)
  ctx.require(min(diff, 2 * math.pi - diff) <= tol,
              '%s: got %r, expected %r (mod 2 pi)', msg, got, want)


def check_box(case, ctx):
  rows = [op_row(t) for t in case['ops']]
  rows = rows + [[0, 0, 0, 0, 0, 8]]
  out = ud(ctx.env['drv'].call('box', d(case['spec']), i(case['via_set']),
                               d([x for r in rows for x in r]))[0]).reshape(-1, 30)
  m = box_model(case['spec'])
  at = 0
  norm = abs(m[2]) <= math.pi  # a heading as given is kept as given
  for k, r in enumerate(rows):
    m = box_apply(m, r)
    norm = norm or int(r[0]) in (3, 4, 5, 8)
    if not int(r[5]) & 8:
      continue
    g = out[at]
    at += 1
    cx, cy, h, l, w = m
    c, s = math.cos(h), math.sin(h)
    pt = lambda u, v: (cx + u * c - v * s, cy + u * s + v * c)
    cor = [pt(-l / 2, w / 2), pt(l / 2, w / 2), pt(l / 2, -w / 2), pt(-l / 2, -w / 2)]
    tag = ' after op %d' % k
    tol = 1e-8
    ctx.close(g[:8], flat(cor), 'corners' + tag, tol, tol)
    ctx.close(g[8:16], flat([cor[0], cor[3], cor[2], cor[1]]),
              'counter-clockwise corners' + tag, tol, tol)
    ctx.close(g[16:19], [l * w, l, w], 'area, length, width' + tag, tol, tol)
    angle_close(ctx, g[19], h, 'heading' + tag)
    if norm:
      ctx.require(abs(g[19]) <= math.pi + 1e-9, 'heading%s is %r, outside [-pi, pi]',
                  tag, g[19])
    ctx.close(g[20:22], [c, s], 'cos and sin of the heading' + tag, 1e-7, 0)
    ctx.close(g[22:24], [cx, cy], 'centre' + tag, tol, tol)
    ctx.close(g[24:28], flat([pt(-l / 2, 0), pt(l / 2, 0)]), 'axis' + tag, tol, tol)
    ctx.equal(g[28], 1.0, 'equality with a copy' + tag)
    ctx.close(g[29], l * w, 'polygon area' + tag, 1e-6, 1e-6)
  ctx.nontrivial(len(set(t[0] for t in case['ops'])) > 1)
  ctx.label(CTOR[int(case['spec'][0])])


# ---- segments -------------------------------------------------------------
@st.composite
def segments(draw):
  kind = draw(st.integers(0, 2))
  c = lambda: draw(geo.coord(30))
  h = draw(geo.heading)
  if kind == 0:
    spec = [0, c(), c(), c(), c()]
  elif kind == 1:
    spec = [1, c(), c(), h, draw(geo.dim)]
  else:
    spec = [2, c(), c(), math.cos(h), math.sin(h), draw(geo.dim)]
  ops = draw(st.lists(st.tuples(
      st.integers(0, 7), grid(20), grid(20), geo.heading, st.integers(0, 15)),
      min_size=1, max_size=9))
  return dict(spec=spec, ops=ops, dot=[c(), c()])


def check_segment(case, ctx):
  sp = case['spec']
  if sp[0] == 0:
    a, b = (sp[1], sp[2]), (sp[3], sp[4])
  elif sp[0] == 1:
    u = (math.cos(sp[3]) * sp[4] / 2, math.sin(sp[3]) * sp[4] / 2)
    a, b = (sp[1] - u[0], sp[2] - u[1]), (sp[1] + u[0], sp[2] + u[1])
  else:
    u = (sp[3] * sp[5] / 2, sp[4] * sp[5] / 2)
    a, b = (sp[1] - u[0], sp[2] - u[1]), (sp[1] + u[0], sp[2] + u[1])
  rows = []
  for k, x, y, t, q in case['ops']:
    rows.append([k] + {0: [0, 0, 0], 1: [0, 0, 0], 2: [t, 0, 0], 3: [t, 0, 0],
                       4: [x, y, t], 5: [x, y, 0], 6: [x, y, 0],
                       7: [0, 0, 0]}[k] + [q])
  rows.append([0, 0, 0, 0, 8])
  out = ud(ctx.env['drv'].call('seg', d(sp), d([x for r in rows for x in r]),
                               d(case['dot']))[0]).reshape(-1, 19)
  at = 0
  norm = sp[0] != 1 or abs(sp[3]) <= math.pi
  for k, r in enumerate(rows):
    op = int(r[0])
    norm = norm or op in (1, 2, 3, 4)
    mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
    if op == 1:
      a, b = b, a
    elif op == 2:
      a, b = rot(a, mid, r[1]), rot(b, mid, r[1])
    elif op == 3:
      a, b = rot(a, (0, 0), r[1]), rot(b, (0, 0), r[1])
    elif op == 4:
      a, b = rot(a, (r[1], r[2]), r[3]), rot(b, (r[1], r[2]), r[3])
    elif op in (5, 6):
      t = (r[1] - mid[0], r[2] - mid[1]) if op == 5 else (r[1], r[2])
      a, b = (a[0] + t[0], a[1] + t[1]), (b[0] + t[0], b[1] + t[1])
    if not int(r[4]) & 8:
      continue
    g = out[at]
    at += 1
    tag = ' after op %d' % k
    v = (b[0] - a[0], b[1] - a[1])
    l = math.hypot(*v)
    ctx.close(g[:4], [*a, *b], 'end points' + tag, 1e-8, 1e-8)
    ctx.close(g[4:6], [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2], 'centre' + tag, 1e-8, 1e-8)
    ctx.close(g[6], l * l, 'Sqr' + tag, 1e-7, 1e-7)
    ctx.close(g[9], l, 'length' + tag, 1e-8, 1e-8)
    ctx.close(g[12], case['dot'][0] * v[0] + case['dot'][1] * v[1], 'Dot' + tag, 1e-6, 1e-7)
    if l > 1e-3:
      u = (v[0] / l, v[1] / l)
      ctx.close(g[7:9], u, 'cos_heading, sin_heading' + tag, 1e-7, 0)
      ctx.close(g[10], 1 / l, 'inv_length' + tag, 1e-7, 1e-7)
      angle_close(ctx, g[11], math.atan2(v[1], v[0]), 'heading' + tag, 1e-7 + 1e-8 / l)
      if norm:
        ctx.require(abs(g[11]) <= math.pi + 1e-9,
                    'heading%s is %r, outside [-pi, pi]', tag, g[11])
      ctx.close(g[13:15], u, 'trig_heading' + tag, 1e-7, 0)
      ctx.close(g[15:17], u, 'Tangent' + tag, 1e-7, 0)
      ctx.close(g[17:19], [-u[1], u[0]], 'PerpUnit' + tag, 1e-7, 0)
    elif sp[0] == 0 and sp[1:3] == sp[3:5]:
      # The same rotation can round a zero-length segment's ends differently.
      if g[9] == 0:
        ctx.equal(list(g[15:19]), [0.0] * 4, 'directions of an empty segment')
  ctx.nontrivial(len(rows) > 2)


@st.composite
def seg_queries(draw):
  c = lambda: draw(grid(8, 2))
  s = [c(), c(), c(), c()]
  others = []
  for _ in range(draw(st.integers(1, 6))):
    how = draw(st.sampled_from(['rand', 'on', 'par', 'same']))
    if how == 'rand':
      others.append([c(), c(), c(), c()])
    else:
      t, u = draw(st.sampled_from([-1, -.5, 0, .25, .5, 1, 1.5, 2])), draw(
          st.sampled_from([-1, -.5, 0, .25, .5, 1, 1.5, 2]))
      v = (s[2] - s[0], s[3] - s[1])
      p = (s[0] + v[0] * t, s[1] + v[1] * t)
      if how == 'on':
        others.append([p[0], p[1], c(), c()])
      else:
        e = (c(), c()) if how == 'par' else (0, 0)
        others.append([p[0] + e[0], p[1] + e[1], s[0] + v[0] * u + e[0],
                       s[1] + v[1] * u + e[1]])
  pts = [(c(), c()) for _ in range(draw(st.integers(1, 5)))]
  t = draw(st.sampled_from([-.5, 0, .5, 1, 2]))
  pts.append((s[0] + (s[2] - s[0]) * t, s[1] + (s[3] - s[1]) * t))
  return dict(s=s, others=others, pts=pts,
              dist=[abs(c()) for _ in range(2)] + [draw(geo.f(0, 30))])


def on_seg(p, q, r):
  return (cross(p, q, r) == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and
          min(p[1], q[1]) <= r[1] <= max(p[1], q[1]))


def dist2(p, q, r):
  v = (q[0] - p[0], q[1] - p[1])
  n = v[0] * v[0] + v[1] * v[1]
  t = 0 if n == 0 else ((r[0] - p[0]) * v[0] + (r[1] - p[1]) * v[1]) / n
  t = max(Fr(0), min(Fr(1), Fr(t)))
  return (p[0] + v[0] * t - r[0])**2 + (p[1] + v[1] * t - r[1])**2


def check_seg_query(case, ctx):
  s = case['s']
  out, side, smp = ctx.env['drv'].call(
      'segq', d(s), d([x for o in case['others'] for x in o]),
      d(flat(case['pts'])), d(case['dist']))
  out, side, smp = (ud(out).reshape(-1, 9), ud(side).reshape(-1, 4),
                    ud(smp).reshape(-1, 3))
  p, q = (Fr(s[0]), Fr(s[1])), (Fr(s[2]), Fr(s[3]))
  for o, g in zip(case['others'], out):
    a, b = (Fr(o[0]), Fr(o[1])), (Fr(o[2]), Fr(o[3]))
    det = (q[0] - p[0]) * (b[1] - a[1]) - (q[1] - p[1]) * (b[0] - a[0])
    touch = any([on_seg(p, q, a), on_seg(p, q, b), on_seg(a, b, p), on_seg(a, b, q)])
    if det != 0:
      t = ((a[0] - p[0]) * (b[1] - a[1]) - (a[1] - p[1]) * (b[0] - a[0])) / det
      u = ((a[0] - p[0]) * (q[1] - p[1]) - (a[1] - p[1]) * (q[0] - p[0])) / det
      touch = 0 <= t <= 1 and 0 <= u <= 1
    cross_ = det != 0 and touch
    tag = ' of %r and %r' % (s, o)
    ctx.equal((bool(g[0]), bool(g[1])), (cross_, cross_), 'Intersect' + tag)
    if cross_:
      pt = (float(p[0] + (q[0] - p[0]) * t), float(p[1] + (q[1] - p[1]) * t))
      ctx.close(g[2:4], pt, 'intersection point' + tag, 1e-9, 0)
      ctx.close(g[7:9], pt, 'exact intersection point' + tag, 1e-9, 0)
      ctx.nontrivial()
    ctx.equal(bool(g[4]), touch, 'IntersectOrCoincide' + tag)
    bb = (max(s[0], s[2]) >= min(o[0], o[2]) and min(s[0], s[2]) <= max(o[0], o[2]) and
          max(s[1], s[3]) >= min(o[1], o[3]) and min(s[1], s[3]) <= max(o[1], o[3]))
    ctx.equal(bool(g[5]), bb, 'MightIntersect' + tag)
    if p != q and a != b:
      ctx.equal(bool(g[6]), touch, 'ExactSegmentIntersection' + tag)
      if touch:
        x, y = g[7:9]
        near = max(dist2(p, q, (Fr(x), Fr(y))), dist2(a, b, (Fr(x), Fr(y))))
        ctx.require(near < 1e-16, 'exact intersection point off a segment' + tag)
    ctx.label('cross' if cross_ else 'coincide' if touch else 'apart')
  for r, g in zip(case['pts'], side):
    r = (Fr(r[0]), Fr(r[1]))
    c = cross(p, q, r)
    want = 0 if c > 0 else 1 if c < 0 else 2
    ctx.equal((int(g[0]), int(g[1])), (want, want), 'SideOfPoint %r of %r' % (r, s))
    if p != q:
      ctx.close(g[2], -float(c) / math.hypot(s[2] - s[0], s[3] - s[1]),
                'perpendicular distance', 1e-9, 1e-9)
    ctx.close(g[3], float(dist2(p, q, r)), 'DistanceSqrToPoint %r of %r' % (r, s),
              1e-9, 1e-9)
  l = math.hypot(s[2] - s[0], s[3] - s[1])
  for dd, g in zip(case['dist'], smp):
    if l == 0:
      ctx.equal(list(g), [0.0, s[0], s[1]], 'Sample of an empty segment')
      continue
    if abs(dd - l) > 1e-9:
      ctx.equal(bool(g[0]), dd < l, 'Sample inside the segment')
    ctx.close(g[1:], [s[0] + (s[2] - s[0]) * dd / l, s[1] + (s[3] - s[1]) * dd / l],
              'sampled point', 1e-9, 1e-9)


@st.composite
def sample_lines(draw):
  return dict(s=[draw(geo.coord(20)) for _ in range(4)],
              dist=draw(st.one_of(st.sampled_from([0.25, 0.5, 1.0, 3.0]), geo.f(0.125, 50))))


def check_sample_points(case, ctx):
  s, step = case['s'], case['dist']
  g = ud(ctx.env['drv'].call('sample_points', d(s + [step]))[0]).reshape(-1, 2)
  l = math.hypot(s[2] - s[0], s[3] - s[1])
  ctx.require(len(g) >= 1, 'no samples')
  ctx.close(g[0], s[:2], 'first sample', 0, 0)
  if l == 0:
    ctx.equal(len(g), 1, 'samples of an empty segment')
    return
  n = l / step
  ctx.require(math.ceil(n - 1e-6) <= len(g) <= math.ceil(n + 1e-6) or len(g) == 1 and n < 1e-6,
              'got %d samples of a length %r segment every %r', len(g), l, step)
  want = [[s[0] + (s[2] - s[0]) * step * k / l, s[1] + (s[3] - s[1]) * step * k / l]
          for k in range(len(g))]
  ctx.close(g, want, 'samples', 1e-8, 1e-8)
  ctx.nontrivial(len(g) > 1)


# ---- axis-aligned boxes ---------------------------------------------------
@st.composite
def aaboxes(draw):
  bs = []
  for _ in range(2 * draw(st.integers(1, 3))):
    x, y = draw(grid(6)), draw(grid(6))
    bs.append([x, y, x + abs(draw(grid(6))), y + abs(draw(grid(6)))])
  return dict(bs=bs, pts=[(draw(grid(8, 8)), draw(grid(8, 8))) for _ in range(6)],
              flt=draw(st.booleans()))


def check_aabox(case, ctx):
  out, q = ctx.env['drv'].call('aaboxf' if case['flt'] else 'aabox',
                               d([x for b in case['bs'] for x in b]),
                               d(flat(case['pts'])))
  out, q = ud(out).reshape(-1, 16), ud(q).reshape(-1, 2)
  for k, g in enumerate(out):
    a, b = case['bs'][2 * k], case['bs'][2 * k + 1]
    ov = a[0] <= b[2] and b[0] <= a[2] and a[1] <= b[3] and b[1] <= a[3]
    ctx.equal((bool(g[0]), bool(g[1])), (ov, ov), 'Overlap of %r, %r' % (a, b))
    ia = (max(0, min(a[2], b[2]) - max(a[0], b[0])) *
          max(0, min(a[3], b[3]) - max(a[1], b[1])))
    ctx.equal(list(g[2:4]), [ia, ia], 'intersection area of %r, %r' % (a, b))
    u = [min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])]
    ctx.equal(list(g[4:12]), [u[0], u[1], u[2] - u[0], u[3] - u[1], u[2], u[3], u[0], u[1]],
              'Union of %r, %r' % (a, b))
    dx, dy = (b[0] + b[2]) / 2, (b[1] + b[3]) / 2
    ctx.equal(list(g[12:]), [a[0] + dx, a[1] + dy, a[2] + dx, a[3] + dy], 'Translate')
    ctx.nontrivial(ia > 0)
  a = case['bs'][0]
  for p, g in zip(case['pts'], q):
    ins = a[0] <= p[0] <= a[2] and a[1] <= p[1] <= a[3]
    ctx.equal(bool(g[0]), ins, 'Inside %r of %r' % (p, a))
    dx = max(0, a[0] - p[0], p[0] - a[2])
    dy = max(0, a[1] - p[1], p[1] - a[3])
    ctx.equal(g[1], dx * dx + dy * dy, 'DistanceSqrToPoint')


@st.composite
def trees(draw):
  def some(lo, hi):
    lim = draw(st.sampled_from([2, 10, 40]))
    h = st.integers(0, draw(st.sampled_from([1, 4, 16])))
    c = st.integers(-lim, lim)
    return draw(st.lists(st.tuples(c, c, h, h), min_size=lo, max_size=hi))
  return dict(bs=some(1, 45), before=some(0, 6) if draw(st.booleans()) else [])


def check_tree(case, ctx):
  bs = case['bs']
  out = unpack(ctx.env['drv'].call(
      'aatree', d([x for b in bs for x in b]),
      d([x for b in case['before'] for x in b]) if case['before'] else b'')[0])
  n = 0
  for k, a in enumerate(bs):
    want = [j for j, b in enumerate(bs) if j != k and abs(a[0] - b[0]) <= a[2] + b[2]
            and abs(a[1] - b[1]) <= a[3] + b[3]]
    n += len(want)
    ctx.equal(sorted(ui(out[k]).tolist()), want, 'boxes overlapping box %d' % k)
  ctx.nontrivial(n > 0 and len(bs) >= 5)
  ctx.label('split' if len(bs) >= 5 else 'leaf')


# ---- vectors and angles ---------------------------------------------------
@st.composite
def vectors(draw):
  c = lambda: draw(geo.coord(50))
  v = [c() for _ in range(4)] + [draw(geo.f(0.0625, 20)) * draw(st.sampled_from([1, -1])),
                                 draw(geo.heading)]
  if draw(st.integers(0, 4)) == 0:
    v[2:4] = v[:2]
  return dict(v=v, w=[c() for _ in range(6)])


def check_vectors(case, ctx):
  x, y, bx, by, s, t = case['v']
  g = ud(ctx.env['drv'].call('vec2', d(case['v']))[0])
  c, n = math.cos(t), math.sin(t)
  l, bl = math.hypot(x, y), math.hypot(bx, by)
  rel = (x - bx, y - by)
  unit = (x / l, y / l) if l > 0 else (0.0, 0.0)
  want = [x + bx, y + by, x - bx, y - by, -x, -y, x * s, y * s, x * s, y * s,
          x / s, y / s, x * bx + y * by, x * bx + y * by, x * by - y * bx,
          abs(x) + abs(y), l, x * x + y * y, math.hypot(*rel), math.hypot(*rel),
          rel[0]**2 + rel[1]**2, rel[0]**2 + rel[1]**2, math.atan2(y, x),
          x * c + y * n, (x * bx + y * by) / bl if bl else NAN, x * bx + y * by,
          -y, x, x * c - y * n, x * n + y * c, x * c - y * n, x * n + y * c,
          rel[0] * c + rel[1] * n, -rel[0] * n + rel[1] * c, *unit, *unit,
          abs(x), abs(y), max(x, bx), max(y, by), min(x, bx), min(y, by),
          math.floor(x), math.floor(y), math.ceil(x), math.ceil(y), c, n,
          s * c, s * n, x + bx, y + by, -x - bx, -y - by]
  ctx.close(g[:len(want)], want, 'Vec2d operations', 1e-9, 1e-9)
  b = g[len(want):]
  ctx.equal(len(b), 7, 'results')
  ctx.equal([bool(k) for k in b[:3]],
            [(x, y) == (bx, by), (x, y) != (bx, by), (x, y) < (bx, by)], 'comparisons')
  near = [abs(rel[0]) - abs(s), abs(rel[1]) - abs(s)]
  if min(abs(k) for k in near) > 1e-9:
    ctx.equal(bool(b[3]), max(near) < 0, 'NearlyEquals')
  cr = (bx - x) * (t - y) - (by - y) * (s - x)
  if abs(cr) > 1e-6:
    ctx.equal(bool(b[4]), cr > 0, 'IsLeftOfLine')
  ctx.equal([bool(b[5]), bool(b[6])], [x == 0 and y == 0, True], 'IsZero, IsFinite')
  w = case['w']
  g = ud(ctx.env['drv'].call('vec3', d(w + [s]))[0])
  a, b = w[:3], w[3:]
  q = sum(k * k for k in a)
  want = ([p + r for p, r in zip(a, b)] + [p - r for p, r in zip(a, b)] +
          [-p for p in a] + [p * s for p in a] * 2 + [p / s for p in a] +
          [p / math.sqrt(q) if q else 0.0 for p in a] +
          [q, math.sqrt(q), float(a == b), 1.0])
  ctx.close(g, want, 'Vec3d operations', 1e-9, 1e-9)
  ctx.nontrivial(l > 0)


@st.composite
def angles(draw):
  y = draw(st.one_of(geo.f(0.125, 100), st.integers(1, 200).map(float)))
  x = draw(st.one_of(
      geo.f(-1000, 1000), st.integers(-60, 60).map(lambda k: k * math.pi),
      st.integers(-60, 60).map(lambda k: k * y),
      st.tuples(st.integers(-9, 9), st.sampled_from([-1e9, 1e9])).map(
          lambda p: float(__import__('numpy').nextafter(p[0] * math.pi, p[1])))))
  lo = draw(geo.f(-50, 50))
  big = st.integers(-10**15, 10**15)
  ks = []
  for _ in range(3):
    m = draw(st.one_of(st.integers(1, 20), st.integers(1, 10**15)))
    ks += [draw(st.one_of(st.integers(-50, 50), big,
                          st.integers(-5, 5).map(lambda k: k * m))), m]
  return dict(x=x, y=y, lo=lo, hi=lo + y, ks=ks)


def check_angles(case, ctx):
  x, y, lo, hi = case['x'], case['y'], case['lo'], case['hi']
  v, k = ctx.env['drv'].call('angle', d(x, y, lo, hi), i(case['ks']))
  v, k = ud(v), ui(k)
  eps = 1e-12 * (1 + abs(x))
  ctx.require(-math.pi <= v[0] < math.pi, 'NormalizeAngle(%r) = %r', x, v[0])
  angle_close(ctx, v[0], x, 'NormalizeAngle(%r)' % x, eps)
  ctx.require(0 <= v[1] < y, 'PositiveModulo(%r, %r) = %r', x, y, v[1])
  r = (v[1] - x) % y
  ctx.require(min(r, y - r) <= 1e-11 * (1 + abs(x)), 'PositiveModulo(%r, %r) = %r', x, y, v[1])
  ctx.require(lo <= v[2] <= hi, 'WrapToRange %r', v[2])
  r = (v[2] - x) % y
  ctx.require(min(r, y - r) <= 1e-9 * (1 + abs(x)), 'WrapToRange(%r, %r, %r) = %r', lo, hi, x, v[2])
  ctx.equal(v[3], min(hi, max(lo, x)), 'BoundToRange')
  angle_close(ctx, v[4], x, 'NormalizeAngle<float>(%r)' % x, 1e-6 * (1 + abs(x)))
  ks = case['ks']
  want = [ks[j] % ks[j + 1] for j in range(0, len(ks), 2)]
  sm = []
  for j in range(0, len(ks), 2):
    a = int(math.fmod(ks[j], 100000))
    b = ks[j + 1] % 50000 + 1
    sm.append(a % b)
  ctx.equal(k.tolist(), want + sm, 'integer PositiveModulo of %r' % ks)
  ctx.nontrivial(not -math.pi <= x < math.pi)


SUBS = [
    Sub('polygon', polygons, check_polygon, quick=2500, rule='more than 3 vertices'),
    Sub('poly_pair', poly_pairs, check_poly_pair, quick=3000,
        rule='the polygons overlap and neither contains the other'),
    Sub('hull', hulls, check_hull, quick=1500, rule='every case'),
    Sub('box', boxes, check_box, quick=3000, rule='at least two different operations'),
    Sub('segment', segments, check_segment, quick=3000, rule='at least two operations'),
    Sub('seg_query', seg_queries, check_seg_query, quick=4000,
        rule='some pair of segments crosses'),
    Sub('sample_points', sample_lines, check_sample_points, quick=800,
        rule='more than one sample'),
    Sub('aabox', aaboxes, check_aabox, quick=2000, rule='some pair overlaps'),
    Sub('tree', trees, check_tree, quick=1500,
        rule='the tree splits and some boxes overlap'),
    Sub('vectors', vectors, check_vectors, quick=2000, rule='non-zero vector'),
    Sub('angles', angles, check_angles, quick=3000, rule='angle outside [-pi, pi)'),
]
