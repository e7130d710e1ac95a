"""ExactFloat against exact rational arithmetic."""
import math
import struct
from fractions import Fraction as Q

from hypothesis import strategies as st

from vlib import drv
from vlib.core import Sub
from vlib.driver import d, i, ud, ui, unpack

prepare = drv.prepare('geom_driver')
close_env = drv.close_env
open_env = drv.open_env

MAXE = 200 * 1000 * 1000
INTMAX, INTMIN = 2**31 - 1, -2**31
LMAX, LMIN = 2**63 - 1, -2**63
NAN, INF = 'nan', 'inf'


# A number is ('nan',), ('inf', sign), ('0', sign) or (odd int, exponent).
def mk(m, e=0):
  if m == 0:
    return ('0', 1)
  t = (m & -m).bit_length() - 1
  m, e = m >> t, e + t
  x = e + abs(m).bit_length()
  if x < -MAXE:
    return ('0', 1 if m > 0 else -1)
  if x > MAXE:
    return ('inf', 1 if m > 0 else -1)
  return (m, e)


def of_double(v, e=0):
  if v != v:
    return ('nan',)
  if math.isinf(v):
    return ('inf', 1 if v > 0 else -1)
  if v == 0:
    return ('0', int(math.copysign(1, v)))
  m, x = math.frexp(v)
  return mk(int(m * 2**53), x - 53 + e)


def parse(s):
  s = s.decode()
  if s in ('nan', 'inf', '-inf', '0', '-0'):
    return ('nan',) if s == 'nan' else (s.lstrip('-'), -1 if s[0] == '-' else 1)
  m, base = 0, None
  parts = []
  for p in s.split(';'):
    h, e = p.split('@')
    f, x = math.frexp(float.fromhex(h))
    parts.append((int(f * 2**53), x - 53 + int(e)))
  base = min(e for _, e in parts)
  for k, e in parts:
    m += k << (e - base)
  return mk(m, base)


def num(a):
  return isinstance(a[0], int)


def sign(a):
  return (1 if a[0] > 0 else -1) if num(a) else (1 if a[0] == 'nan' else a[1])


def with_sign(a, s):
  if a[0] == 'nan':
    return a
  return (abs(a[0]) * s, a[1]) if num(a) else (a[0], s)


def add(a, b):
  if 'nan' in (a[0], b[0]):
    return ('nan',)
  if a[0] == 'inf':
    return ('nan',) if b[0] == 'inf' and a[1] != b[1] else a
  if b[0] == 'inf':
    return b
  if a[0] == '0':
    return b if b[0] != '0' or a[1] == b[1] else ('0', 1)
  if b[0] == '0':
    return a
  e = min(a[1], b[1])
  return mk((a[0] << (a[1] - e)) + (b[0] << (b[1] - e)), e)


def mul(a, b):
  if 'nan' in (a[0], b[0]):
    return ('nan',)
  s = sign(a) * sign(b)
  if 'inf' in (a[0], b[0]):
    return ('nan',) if '0' in (a[0], b[0]) else ('inf', s)
  if '0' in (a[0], b[0]):
    return ('0', s)
  return mk(a[0] * b[0], a[1] + b[1])


def cmp(a, b):
  """-1, 0, 1 or None."""
  if 'nan' in (a[0], b[0]):
    return None
  def key(x):
    if x[0] == 'inf':
      return (x[1], 0, 0)
    return (0, 0, 0)
  if 'inf' in (a[0], b[0]):
    ka, kb = key(a)[0], key(b)[0]
    return (ka > kb) - (ka < kb)
  za, zb = a[0] == '0', b[0] == '0'
  sa, sb = (0 if za else sign(a)), (0 if zb else sign(b))
  if sa != sb:
    return 1 if sa > sb else -1
  if za and zb:
    return 0
  xa, xb = top(a), top(b)
  if xa != xb:
    return sa * (1 if xa > xb else -1)
  e = min(a[1], b[1])
  x, y = a[0] << (a[1] - e), b[0] << (b[1] - e)
  return (x > y) - (x < y)


def top(a):
  return a[1] + abs(a[0]).bit_length()


def round_at(a, bit, mode):
  """The multiple of 2**bit that the mode picks."""
  if not num(a) or a[1] >= bit:
    return a
  sh = bit - a[1]
  m = abs(a[0])
  q, r = m >> sh, m & ((1 << sh) - 1)
  half = 1 << (sh - 1)
  s = sign(a)
  if mode == 4:
    mode = 3 if s > 0 else 2
  elif mode == 5:
    mode = 2 if s > 0 else 3
  if mode == 0:
    up = r > half or (r == half and q & 1)
  elif mode == 1:
    up = r >= half
  elif mode == 2:
    up = False
  else:
    up = r > 0
  q += bool(up)
  return with_sign(mk(q, bit), s)


def round_prec(a, prec, mode):
  if not num(a):
    return a
  sh = abs(a[0]).bit_length() - prec
  return a if sh <= 0 else round_at(a, a[1] + sh, mode)


def ldexp(a, n):
  return mk(a[0], a[1] + n) if num(a) else a


def to_double(a):
  if a[0] == 'nan':
    return float('nan')
  if a[0] == 'inf':
    return a[1] * math.inf
  if a[0] == '0':
    return math.copysign(0.0, a[1])
  r = round_prec(a, 53, 0)  # the code rounds to 53 bits, then scales
  try:
    return math.ldexp(r[0], r[1])
  except OverflowError:
    return sign(a) * math.inf


def nearest(a):
  try:
    return float(frac(a))
  except OverflowError:
    return sign(a) * math.inf


def to_int(a, mode):
  if a[0] == 'nan':
    return LMAX
  if a[0] == 'inf':
    return LMAX if a[1] > 0 else LMIN
  r = round_at(a, 0, mode)
  if r[0] == '0':
    return 0
  return max(LMIN, min(LMAX, r[0] << r[1]))


def frac(a):
  return Q(a[0]) * (Q(2) ** a[1])


def digits10(a, n):
  """n significant decimal digits, ties to even: (digit string, exponent)."""
  v = abs(frac(a))
  x = len(str(v.numerator)) - len(str(v.denominator)) + 1
  while v >= Q(10) ** x:
    x += 1
  while v < Q(10) ** (x - 1):
    x -= 1
  s = v * Q(10) ** (n - x)
  k = round(s)  # ties to even
  t = str(k)
  if len(t) > n:
    t, x = t[:-1], x + 1
  return t.rstrip('0'), x


def text(a, n):
  if not num(a):
    return 'nan' if a[0] == 'nan' else ('-' if a[1] < 0 else '') + a[0]
  t, x = digits10(a, n)
  s = '-' if a[0] < 0 else ''
  if x <= -4 or x > n:
    return None if not t else s + t[0] + ('.' + t[1:] if len(t) > 1 else '') + 'e%+d' % (x - 1)
  if x > 0:
    return s + (t + '0' * (x - len(t)) if x >= len(t) else t[:x] + '.' + t[x:])
  return s + '0.' + '0' * -x + t


# ---- generators ------------------------------------------------------------
def doubles():
  return st.one_of(
      st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 3.5, 0.1, 1e300, 5e-324, 2.0**53, 2.0**53 - 1,
                       2.0**63, -2.0**63, 2.0**63 - 1024, 1.7976931348623157e308, 2.2250738585072014e-308]),
      st.integers(-40, 40).map(lambda n: n / 4),
      st.integers(-2**62, 2**62).map(float),
      st.tuples(st.integers(-2999, 2999), st.integers(0, 12)).map(lambda t: float(t[0] * 10**t[1])),
      st.floats(allow_nan=False, allow_infinity=False),
      st.sampled_from([math.inf, -math.inf, math.nan]))


@st.composite
def sums(draw):
  """Pairs (value, exponent), added up."""
  kind = draw(st.integers(0, 5))
  if kind <= 1:
    return [(draw(doubles()), 0)]
  base = draw(st.sampled_from([0, 0, 0, -60, 60, 900, -1000, 3000]))
  out = []
  for _ in range(draw(st.integers(1, 4))):
    v = draw(st.one_of(st.sampled_from([1.0, -1.0, 0.5, 3.0, -3.0]), st.integers(-2**53, 2**53).map(float)))
    out.append((v, base + draw(st.sampled_from([0, 1, -1, 2, -2, 53, -53, 64, -64, 90, -107, 200]))))
  return out


@st.composite
def cases(draw):
  a = draw(sums())
  b = draw(sums())
  rel = draw(st.integers(0, 7))
  if rel == 0:
    b = list(a)
  elif rel == 1:
    b = [(-v, e) for v, e in a]
  elif rel == 2:
    b = list(a) + [(1.0, a[-1][1] - draw(st.integers(1, 120)))]
  k1 = draw(st.one_of(st.integers(2, 60), st.integers(2, 200)))
  if rel in (3, 4):
    # Halfway between two kept values (integers, or k1 bits), or barely beside it.
    n, e = draw(st.integers(1, 40)), 0
    if rel == 4:
      k1 = draw(st.integers(2, 50))
      n = draw(st.integers(2**(k1 - 1), 2**k1 - 1))
      e = draw(st.sampled_from([0, -k1, 30, -200]))
    a = [((n + .5) * draw(st.sampled_from([1, -1])), e)]
    if draw(st.booleans()):
      a.append((draw(st.sampled_from([1.0, -1.0])), e - draw(st.one_of(st.integers(2, 80), st.integers(60, 300)))))
  digits = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
  if rel == 5:  # halfway in decimal, or barely beside it
    kept = str(draw(st.integers(1, 9999)))
    digits = len(kept)
    tail = draw(st.sampled_from(['5', '50', '501', '509', '59', '51', '49', '4999', '5000009', '500000']))
    a = [(float(kept + tail) * draw(st.sampled_from([1, -1])) * 10.0**draw(st.integers(0, 3)), 0)]
  return dict(a=a, b=b, k=[draw(st.one_of(st.integers(-70, 70), st.integers(-3000, 3000))),
                           k1, digits,
                           draw(st.one_of(st.sampled_from([0, 1, -1, INTMAX, INTMIN + 1]), st.integers(INTMIN + 1, INTMAX)))])


def total(pairs):
  r = ldexp(of_double(pairs[0][0]), pairs[0][1])
  for v, e in pairs[1:]:
    r = add(r, ldexp(of_double(v), e))
  return r


def check_ops(case, ctx):
  a, b = total(case['a']), total(case['b'])
  k = case['k']
  if any(num(x) and abs(top(x)) > 6000 for x in (a, b)):
    return
  v, dd, p, l, txt = ctx.call(ctx.env['drv'].call, 'exact', d(sum(map(list, case['a']), [])), d(sum(map(list, case['b']), [])),
                              i(k + [1]))
  v = [parse(x) for x in unpack(v)]
  c = cmp(a, b)
  neg = with_sign(b, -sign(b))
  fmax = b if a[0] == 'nan' else a if b[0] == 'nan' else (a if sign(a) > sign(b) else b) if sign(a) != sign(b) else (b if c < 0 else a)
  fmin = b if a[0] == 'nan' else a if b[0] == 'nan' else (a if sign(a) < sign(b) else b) if sign(a) != sign(b) else (a if c < 0 else b)
  z = ('0', 1)
  want = [a, add(a, b), add(a, neg), mul(a, b), with_sign(a, -sign(a)), with_sign(a, 1), fmax, fmin,
          z if c is not None and c <= 0 else add(a, neg)]
  want += [round_at(a, 0, m) for m in (4, 5, 2, 1, 0)]
  want += [with_sign(a, sign(b)), ldexp(a, k[0]), add(a, b), add(a, neg), mul(a, b), b, mk(k[3])]
  want += [round_prec(a, k[1], m) for m in range(6)]
  want += [ldexp(a, -top(a)) if num(a) else a]
  names = ['a', 'a+b', 'a-b', 'a*b', '-a', 'fabs', 'fmax', 'fmin', 'fdim', 'ceil', 'floor', 'trunc', 'round', 'rint', 'copysign',
           'ldexp', '+=', '-=', '*=', 'b', 'int', 'ties to even', 'ties away', 'toward zero', 'away from zero', 'toward +', 'toward -',
           'frexp']
  for n, g, w in zip(names, v, want):
    if g != w:
      # The sign of a NaN and of fmax(0, 0) ties is immaterial.
      if n in ('fmax', 'fmin') and g[0] == w[0] == '0' and sign(a) == sign(b):
        continue
      ctx.require(False, '%s of %s, %s: got %s, expected %s', n, a, b, g, w)
  ctx.equal(len(v), len(want), 'values')
  dd = ud(dd)
  wd = to_double(a)
  direct = nearest(a) if num(a) else wd  # below the normal range the code rounds twice
  ctx.require(struct.pack('<d', dd[0]) in (struct.pack('<d', wd), struct.pack('<d', direct)) or (wd != wd and dd[0] != dd[0]), 'ToDouble of %s: got %r, expected %r',
              a, float(dd[0]), wd)
  ctx.equal([int(x) for x in dd[1:]], [abs(a[0]).bit_length() if num(a) else 0, top(a) if num(a) else 0], 'precision, exponent')
  lt, eq = c == -1, c == 0
  flags = [eq, not eq, lt, lt or eq, c == 1, c == 1 or eq, a[0] == '0', a[0] == 'inf', a[0] == 'nan', num(a),
           num(a) or a[0] == '0', sign(a) < 0, 0 if a[0] in ('0', 'nan') else sign(a), top(a) if num(a) else 0,
           top(a) - 1 if num(a) else 0]
  got = [int(x) for x in ui(p)]
  if a[0] == 'nan':
    flags[12] = got[12]  # sgn of NaN is not specified
  ctx.equal(got, [int(x) for x in flags], 'comparisons and flags of %s, %s' % (a, b))
  ctx.equal([int(x) for x in ui(l)], [to_int(a, 0)] * 2 + [to_int(a, 1)] * 2, 'integers')
  txt = [t.decode() for t in unpack(txt)]
  prec = abs(a[0]).bit_length() if num(a) else 0
  full = max(10, int(1 + math.ceil(prec * (math.log(2) / math.log(10)))))
  ctx.equal(norm(txt[0]), norm(text(a, full)), 'text')
  ctx.equal(norm(txt[1]), norm(text(a, k[2])), 'text with %d digits' % k[2])
  ctx.equal(norm(txt[2].split('<')[0]), norm(text(a, full)), 'unique text')
  ctx.require(txt[2].endswith('<%d>' % prec), 'unique text %s lacks the precision', txt[2])
  ctx.nontrivial(num(a) and num(b) and a[0] != b[0])
  ctx.label('special' if not (num(a) and num(b)) else 'long' if max(abs(a[0]).bit_length(), abs(b[0]).bit_length()) > 53 else 'short')


def norm(t):
  """The width of the exponent is free: e+5 and e+05 are the same."""
  if 'e' in t:
    m, e = t.split('e')
    return '%se%d' % (m, int(e))
  return t


@st.composite
def bigs(draw):
  def e():
    return draw(st.one_of(st.integers(-MAXE - 60, MAXE + 60),
                          st.sampled_from([MAXE, -MAXE, MAXE // 2, -MAXE // 2, 0]).flatmap(
                              lambda x: st.one_of(st.integers(x - 3, x + 2), st.integers(x - 60, x + 60)))))
  vals = st.one_of(st.sampled_from([1.0, -1.0, 0.5, -0.5, 3.0, 1e-3, 0.0, -0.0, math.inf]), st.floats(allow_nan=False, allow_infinity=False))
  return dict(v=[draw(vals), draw(vals)],
              k=[e(), e(), draw(st.one_of(st.integers(INTMIN, INTMAX), st.integers(-2 * MAXE - 9, 2 * MAXE + 9))),
                 draw(st.one_of(st.integers(LMIN, LMAX), st.integers(-2 * MAXE - 9, 2 * MAXE + 9)))])


def check_big(case, ctx):
  k = case['k']
  a, b = (ldexp(of_double(v), x) for v, x in zip(case['v'], k))
  v, p = ctx.call(ctx.env['drv'].call, 'exact_big', d(case['v']), i(k))
  v = [parse(x) for x in unpack(v)]
  m = mul(a, b)
  lb = ('inf', -1) if m[0] == '0' else m if m[0] == 'nan' else ('inf', 1) if m[0] == 'inf' else mk(top(m) - 1)
  want = [a, b, m, ldexp(a, k[2]), ldexp(a, max(INTMIN, min(INTMAX, k[3]))), ldexp(m, -top(m)) if num(m) else m,
          with_sign(a, -sign(a)), add(a, a), lb]
  for n, g, w in zip(('a', 'b', 'a*b', 'ldexp', 'scalbln', 'frexp', '-a', 'a+a', 'logb'), v, want):
    ctx.equal(g, w, '%s with exponents %s' % (n, k))
  c = cmp(a, b)
  p = [int(x) for x in ui(p)]
  ctx.equal(p[:7], [int(x) for x in (c == 0, c == -1, c is not None and c <= 0, m[0] == '0', m[0] == 'inf', top(m) if num(m) else 0,
                                     top(m) if num(m) else 0)], 'comparisons and exponents')
  if num(m):
    ctx.equal(p[7], top(m) - 1, 'ilogb')
  ctx.nontrivial(num(a) and abs(top(a)) > MAXE // 4)
  ctx.label('overflow' if 'inf' in (m[0], want[3][0]) else 'underflow' if '0' in (m[0], want[3][0]) else 'in range')


SUBS = [
    Sub('arithmetic', cases, check_ops, 4000, rule='both numbers are finite, nonzero and different'),
    Sub('range', bigs, check_big, 3000, rule='an exponent beyond a quarter of the range'),
]
