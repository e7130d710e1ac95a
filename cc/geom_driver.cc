#include <sstream>

#include "server.h"
#include "waymo_open_dataset/math/aabox2d.h"
#include "waymo_open_dataset/math/box2d.h"
#include "waymo_open_dataset/math/exactfloat.h"
#include "waymo_open_dataset/math/math_util.h"
#include "waymo_open_dataset/math/polygon2d.h"
#include "waymo_open_dataset/math/segment2d.h"
#include "waymo_open_dataset/math/vec2d.h"
#include "waymo_open_dataset/math/vec3d.h"

using namespace verif;
using namespace waymo::open_dataset;

static std::vector<Vec2d> Pts(const std::vector<double>& v) {
  std::vector<Vec2d> p;
  for (size_t i = 0; i + 1 < v.size(); i += 2) p.emplace_back(v[i], v[i + 1]);
  return p;
}
static void Add(std::vector<double>* v, const Vec2d p) {
  v->push_back(p.x());
  v->push_back(p.y());
}

// points, ops rows (angle, cx, cy, ox, oy; angle NaN = ShiftCenter), queries.
HANDLER(poly) {
  Polygon2d p(Pts(D(f[0])));
  std::vector<double> ops = D(f[1]);
  for (size_t i = 0; i < ops.size(); i += 5) {
    if (std::isnan(ops[i])) {
      p.ShiftCenter(Vec2d(ops[i + 3], ops[i + 4]));
    } else {
      p.Transform(ops[i], Vec2d(ops[i + 1], ops[i + 2]),
                  Vec2d(ops[i + 3], ops[i + 4]));
    }
  }
  std::vector<double> pts, q;
  for (const Vec2d v : p.points()) Add(&pts, v);
  q.push_back(p.Area());
  Add(&q, p.bbox_bottom_left());
  Add(&q, p.bbox_top_right());
  q.push_back(p.NumPoints());
  std::vector<int> in;
  for (const Vec2d v : Pts(D(f[2]))) {
    in.push_back(p.PointInside(v));
    in.push_back(p.PointInside(v.x(), v.y()));
  }
  return {PD(pts), PD(q), PI(in)};
}
HANDLER(poly_pair) {
  Polygon2d a(Pts(D(f[0]))), b(Pts(D(f[1])));
  return {PD(std::vector<double>{
      a.ComputeIntersectionArea(b), b.ComputeIntersectionArea(a),
      double(a.MaybeHasIntersectionWith(b)),
      double(b.MaybeHasIntersectionWith(a)), a.Area(), b.Area()})};
}
HANDLER(hull) {
  bool ccw = false;
  bool ok = Polygon2d::IsConvexHull(Pts(D(f[0])), &ccw);
  bool ok2 = Polygon2d::IsConvexHull(Pts(D(f[0])));
  return {PI(std::vector<int>{ok, ccw, ok2})};
}

static Box2d MakeBox(const std::vector<double>& c, bool via_set) {
  Box2d b;
  const int k = c[0];
  if (!via_set) {
    switch (k) {
      case 0: return Box2d(Vec2d(c[1], c[2]), Vec2d(c[3], c[4]), c[5]);
      case 1: return Box2d(Vec2d(c[1], c[2]), c[3], c[4], c[5]);
      case 2: return Box2d(Vec2d(c[1], c[2]), Vec2d(c[3], c[4]), c[5], c[6]);
      case 3: return Box2d(int(c[1]), Vec2d(c[2], c[3]), c[4], c[5], c[6]);
      case 4: return Box2d(Vec2d(c[1], c[2]), Vec2d(c[3], c[4]));
    }
  }
  b = Box2d(Vec2d(9, 9), 1.0, 3, 2);
  b.axis_heading();
  b.length();
  switch (k) {
    case 0: b.Set(Vec2d(c[1], c[2]), Vec2d(c[3], c[4]), c[5]); break;
    case 1: b.Set(Vec2d(c[1], c[2]), c[3], c[4], c[5]); break;
    case 2: b.Set(Vec2d(c[1], c[2]), Vec2d(c[3], c[4]), c[5], c[6]); break;
    case 3: b.Set(int(c[1]), Vec2d(c[2], c[3]), c[4], c[5], c[6]); break;
    case 4: b.Set(Vec2d(c[1], c[2]), Vec2d(c[3], c[4])); break;
  }
  return b;
}
// ctor, via_set, ops rows (op, a, b, c, d, query?)
HANDLER(box) {
  Box2d b = MakeBox(D(f[0]), I(f[1])[0]);
  std::vector<double> ops = D(f[2]);
  std::vector<double> out;
  for (size_t i = 0; i < ops.size(); i += 6) {
    const double* o = &ops[i];
    switch (int(o[0])) {
      case 0: break;
      case 1: b.MoveCenter(Vec2d(o[1], o[2])); break;
      case 2: b.ShiftCenter(Vec2d(o[1], o[2])); break;
      case 3: b.RotateAroundCenter(o[1]); break;
      case 4: b.RotateAroundOrigin(o[1]); break;
      case 5: b.RotateAroundPoint(Vec2d(o[1], o[2]), o[3]); break;
      case 6: b.SetSize(o[1], o[2]); break;
      case 7: b.set_width(o[1]); break;
      case 8: b.SetAxis(Vec2d(o[1], o[2]), Vec2d(o[3], o[4])); break;
      case 9: { Box2d t(Vec2d(1, 2), 0.5, 7, 3); t.axis_heading(); t.length(); t.cos_heading(); t = b; b = t; break; }
    }
    const int q = int(o[5]);
    if (q & 1) b.axis_heading();
    if (q & 2) b.length();
    if (q & 4) b.cos_heading();
    if (q & 8) {
      double xx[4], yy[4];
      b.GetCorners(xx, yy);
      for (int k = 0; k < 4; ++k) out.insert(out.end(), {xx[k], yy[k]});
      std::vector<Vec2d> c;
      b.GetCornersInVectorCounterClockwise(&c);
      for (const Vec2d v : c) Add(&out, v);
      out.insert(out.end(), {b.GetArea(), b.length(), b.width(), b.axis_heading(),
                             b.cos_heading(), b.sin_heading()});
      Add(&out, b.center());
      Add(&out, b.axis_start());
      Add(&out, b.axis_end());
      Box2d other(b);
      out.push_back(other == b && !(other != b));
      Polygon2d p(b);
      out.push_back(p.Area());
    }
  }
  return {PD(out)};
}
static Segment2d MakeSeg(const std::vector<double>& c) {
  switch (int(c[0])) {
    case 0: return Segment2d(Vec2d(c[1], c[2]), Vec2d(c[3], c[4]));
    case 1: return Segment2d(Vec2d(c[1], c[2]), c[3], c[4]);
    default: return Segment2d(Vec2d(c[1], c[2]), Vec2d(c[3], c[4]), c[5]);
  }
}
// ctor, ops rows (op, a, b, c, query), vector for Dot
HANDLER(seg) {
  Segment2d s = MakeSeg(D(f[0]));
  std::vector<double> ops = D(f[1]), dv = D(f[2]);
  std::vector<double> out;
  for (size_t i = 0; i < ops.size(); i += 5) {
    const double* o = &ops[i];
    switch (int(o[0])) {
      case 0: break;
      case 1: s = s.Flip(); break;
      case 2: s = s.RotateAroundCenter(o[1]); break;
      case 3: s = s.RotateAroundOrigin(o[1]); break;
      case 4: s = s.RotateAroundPoint(Vec2d(o[1], o[2]), o[3]); break;
      case 5: s = s.MoveCenter(Vec2d(o[1], o[2])); break;
      case 6: s = s.ShiftCenter(Vec2d(o[1], o[2])); break;
      case 7: { Segment2d t(Vec2d(3, 4), 0.7, 2); t.heading(); t.length(); t.inv_length(); t = s; s = Segment2d(t); break; }
    }
    const int q = int(o[4]);
    if (q & 1) s.heading();
    if (q & 2) s.length();
    if (q & 4) s.inv_length();
    if (q & 8) {
      Add(&out, s.start());
      Add(&out, s.end());
      Add(&out, s.center());
      out.insert(out.end(), {s.Sqr(), s.cos_heading(), s.sin_heading(), s.length(),
                             s.inv_length(), s.heading(), s.Dot(Vec2d(dv[0], dv[1]))});
      double c, n;
      s.trig_heading(&c, &n);
      out.insert(out.end(), {c, n});
      Add(&out, s.Tangent());
      Add(&out, s.PerpUnit());
    }
  }
  return {PD(out)};
}
// segment (4), other segments rows of 4, points, sample distances.
HANDLER(segq) {
  std::vector<double> a = D(f[0]), o = D(f[1]);
  Segment2d s(Vec2d(a[0], a[1]), Vec2d(a[2], a[3]));
  std::vector<double> out, side, smp;
  for (size_t i = 0; i < o.size(); i += 4) {
    Segment2d t(Vec2d(o[i], o[i + 1]), Vec2d(o[i + 2], o[i + 3]));
    Vec2d p(-1234.5, -1234.5), e(-1234.5, -1234.5);
    out.push_back(s.Intersect(t, &p));
    out.push_back(s.Intersect(t));
    Add(&out, p);
    out.push_back(s.IntersectOrCoincide(t));
    out.push_back(s.MightIntersect(t));
    out.push_back(waymo::open_dataset::internal::ExactSegmentIntersection(s, t, &e));
    Add(&out, e);
  }
  for (const Vec2d p : Pts(D(f[2]))) {
    double dist = 0;
    side.push_back(s.SideOfPoint(p));
    side.push_back(s.SideOfPoint(p, &dist));
    side.push_back(dist);
    side.push_back(s.DistanceSqrToPoint(p));
  }
  for (double d : D(f[3])) {
    Vec2d p;
    smp.push_back(s.Sample(d, &p));
    Add(&smp, p);
  }
  return {PD(out), PD(side), PD(smp)};
}
HANDLER(sample_points) {
  std::vector<double> a = D(f[0]), out;
  for (const Vec2d p :
       Segment2d::SamplePoints(Vec2d(a[0], a[1]), Vec2d(a[2], a[3]), a[4]))
    Add(&out, p);
  return {PD(out)};
}

template <class T>
static Fields AaBox(const Fields& f) {
  std::vector<double> v = D(f[0]), pts = D(f[1]), out, q;
  std::vector<AABox2d<T>> b;
  for (size_t i = 0; i < v.size(); i += 4) {
    AABox2d<T> x;
    x.Init(v[i], v[i + 1], v[i + 2], v[i + 3]);
    b.push_back(x);
  }
  for (size_t i = 0; i + 1 < b.size(); i += 2) {
    AABox2d<T> u = b[i];
    u.Union(b[i + 1]);
    T x, y, w, h, x2, y2;
    u.GetXYWH(&x, &y, &w, &h);
    u.GetMax(&x2, &y2);
    T mx, my;
    u.GetMin(&mx, &my);
    out.insert(out.end(), {double(b[i].Overlap(b[i + 1])),
                           double(b[i + 1].Overlap(b[i])),
                           double(b[i].ComputeIntersectionArea(b[i + 1])),
                           double(b[i + 1].ComputeIntersectionArea(b[i])),
                           double(x), double(y), double(w), double(h),
                           double(x2), double(y2), double(mx), double(my)});
    AABox2d<T> t = b[i];
    t.Translate(b[i + 1].cx(), b[i + 1].cy());
    t.GetMin(&x, &y);
    t.GetMax(&x2, &y2);
    out.insert(out.end(), {double(x), double(y), double(x2), double(y2)});
  }
  for (size_t i = 0; i + 1 < pts.size(); i += 2) {
    q.push_back(b[0].Inside(pts[i], pts[i + 1]));
    q.push_back(b[0].DistanceSqrToPoint(pts[i], pts[i + 1]));
  }
  return {PD(out), PD(q)};
}
HANDLER(aabox) { return AaBox<double>(f); }
HANDLER(aaboxf) { return AaBox<float>(f); }

// rows cx cy hx hy; the tree is first built from f[1]'s boxes when given.
HANDLER(aatree) {
  AABox2dTree<double> tree;
  auto boxes = [](const std::vector<double>& v) {
    std::vector<AABox2d<double>> b;
    for (size_t i = 0; i < v.size(); i += 4)
      b.emplace_back(v[i], v[i + 1], v[i + 2], v[i + 3]);
    return b;
  };
  if (!f[1].empty()) tree.BuildTree(boxes(D(f[1])));
  auto b = boxes(D(f[0]));
  tree.BuildTree(b);
  Fields out;
  std::vector<int> hits = {7, 7, 7};
  for (size_t i = 0; i < b.size(); ++i) {
    tree.CollectOverlaps(i, &hits);
    out.push_back(PI(hits));
  }
  return {Pack(out)};
}
HANDLER(vec2) {
  std::vector<double> v = D(f[0]), out;
  Vec2d a(v[0], v[1]), b(v[2], v[3]);
  const double s = v[4], t = v[5];
  Add(&out, a + b);
  Add(&out, a - b);
  Add(&out, -a);
  Add(&out, a * s);
  Add(&out, s * a);
  Add(&out, a / s);
  out.insert(out.end(), {a.Dot(b), a.Dot(b.x(), b.y()), a.CrossProd(b), a.L1Norm(),
                         a.Length(), a.Sqr(), a.DistanceToPoint(b),
                         a.DistanceToPoint(b.x(), b.y()), a.DistanceSqrToPoint(b),
                         a.DistanceSqrToPoint(b.x(), b.y()), a.Angle(),
                         a.Project(t), a.Project(b), a.ProjectOntoUnit(b)});
  Add(&out, a.Perp());
  Vec2d r = a;
  r.Rotate(t);
  Add(&out, r);
  Add(&out, a.Rotated(t));
  Add(&out, a.RelativeToOrigin(b, t));
  Add(&out, a.Normalized());
  r = a;
  r.Normalize();
  Add(&out, r);
  Add(&out, a.Abs());
  Add(&out, a.ElemWiseMax(b));
  Add(&out, a.ElemWiseMin(b));
  Add(&out, a.Floor());
  Add(&out, a.Ceil());
  Add(&out, Vec2d::CreateUnitFromAngle(t));
  Add(&out, Vec2d::CreateFromAngleAndLength(t, s));
  r = a;
  r.Shift(b.x(), b.y());
  Add(&out, r);
  r.Flip();
  Add(&out, r);
  out.insert(out.end(), {double(a == b), double(a != b), double(a < b),
                         double(a.NearlyEquals(b, std::abs(s))),
                         double(a.IsLeftOfLine(b, Vec2d(s, t))),
                         double(a.IsZero()), double(a.IsFinite())});
  return {PD(out)};
}
HANDLER(vec3) {
  std::vector<double> v = D(f[0]), out;
  Vec3d a(v[0], v[1], v[2]), b(v[3], v[4], v[5]);
  const double s = v[6];
  auto add = [&](const Vec3d& p) { out.insert(out.end(), {p.x(), p.y(), p.z()}); };
  add(a + b);
  add(a - b);
  add(-a);
  add(a * s);
  add(s * a);
  add(a / s);
  add(a.Normalized());
  out.insert(out.end(), {a.Sqr(), a.Length(), double(a == b), double(a == a)});
  return {PD(out)};
}
// x, y, lo, hi
HANDLER(angle) {
  std::vector<double> v = D(f[0]);
  std::vector<double> out = {NormalizeAngle(v[0]), PositiveModulo(v[0], v[1]),
                             WrapToRange(v[2], v[3], v[0]),
                             BoundToRange(v[2], v[3], v[0]),
                             double(NormalizeAngle(float(v[0])))};
  std::vector<int64_t> k = I(f[1]);
  std::vector<int64_t> io;
  for (size_t i = 0; i + 1 < k.size(); i += 2)
    io.push_back(PositiveModulo(k[i], k[i + 1]));
  for (size_t i = 0; i + 1 < k.size(); i += 2)
    io.push_back(PositiveModulo(int(k[i] % 100000), int(k[i + 1] % 50000 + 1)));
  return {PD(out), PI(io)};
}

// ---- ExactFloat: values travel as sign, decimal mantissa text ----
static std::string X(const ExactFloat& a) { return a.ToUniqueString(); }
static ExactFloat Big(const std::vector<double>& v) {
  // Sum of v[2k] * 2^v[2k+1]; a single pair keeps signed zero, inf and nan.
  ExactFloat r = ldexp(ExactFloat(v[0]), int(v[1]));
  for (size_t i = 2; i + 1 < v.size(); i += 2)
    r += ldexp(ExactFloat(v[i]), int(v[i + 1]));
  return r;
}
// Exact value: sign, is_* flags and, when normal, bits through frexp.
static std::string Val(const ExactFloat& a) {
  std::ostringstream s;
  if (a.is_nan()) return "nan";
  if (a.is_inf()) return a.sign_bit() ? "-inf" : "inf";
  if (a.is_zero()) return a.sign_bit() ? "-0" : "0";
  // Peel doubles off the top: exact, and independent of printing.
  int e0;
  ExactFloat r = frexp(a, &e0);
  bool first = true;
  for (int n = 0; n < 400 && !r.is_zero(); ++n) {
    int e;
    ExactFloat m = frexp(r, &e);
    double top = m.RoundToMaxPrec(53, ExactFloat::kRoundTowardZero).ToDouble();
    char buf[64];
    snprintf(buf, sizeof buf, "%s%a@%d", first ? "" : ";", top, e + e0);
    s << buf;
    first = false;
    r = r - ldexp(ExactFloat(top), e);
  }
  return s.str();
}
HANDLER(exact) {
  ExactFloat a = Big(D(f[0])), b = Big(D(f[1]));
  std::vector<int> k = I32(f[2]);
  std::vector<double> dd = {a.ToDouble(), double(a.prec()),
                            double(a.is_normal() ? a.exp() : 0)};
  std::vector<int> p = {a == b, a != b, a < b, a <= b, a > b, a >= b,
                        a.is_zero(), a.is_inf(), a.is_nan(), a.is_normal(),
                        a.is_finite(), a.sign_bit(), a.sgn()};
  ExactFloat c = a;
  c += b;
  ExactFloat d = a;
  d -= b;
  ExactFloat m = a;
  m *= b;
  Fields out = {Val(a), Val(a + b), Val(a - b), Val(a * b), Val(-a), Val(fabs(a)),
                Val(fmax(a, b)), Val(fmin(a, b)), Val(fdim(a, b)), Val(ceil(a)),
                Val(floor(a)), Val(trunc(a)), Val(round(a)), Val(rint(a)),
                Val(copysign(a, b)), Val(ldexp(a, k[0])), Val(c), Val(d), Val(m),
                Val(b), Val(ExactFloat(k[3]))};
  for (int mode = 0; mode < 6; ++mode)
    out.push_back(Val(a.RoundToMaxPrec(
        std::max(k[1], mode < 1 ? 2 : 1), ExactFloat::RoundingMode(mode))));
  int e = 12345;
  ExactFloat fr = frexp(a, &e);
  out.push_back(Val(fr));
  p.push_back(a.is_normal() ? e : 0);
  p.push_back(a.is_normal() ? ilogb(a) : 0);
  std::vector<int64_t> l;
  if (k[4]) l = {lrint(a), llrint(a), lround(a), llround(a)};
  return {Pack(out), PD(dd), PI(p), PI(l),
          Pack({a.ToString(), a.ToStringWithMaxDigits(k[2]), X(a)})};
}

// Exponents near the ends of the range: nothing here adds numbers of
// different size.
HANDLER(exact_big) {
  std::vector<double> v = D(f[0]);
  std::vector<int> k = I32(f[1]);
  ExactFloat a = ldexp(ExactFloat(v[0]), k[0]), b = ldexp(ExactFloat(v[1]), k[1]);
  ExactFloat m = a * b, l = ldexp(a, k[2]), sc = scalbln(a, long(I(f[1])[3]));
  int e = 12345;
  ExactFloat fr = frexp(m, &e);
  std::vector<int> p = {a == b, a < b, a <= b, m.is_zero(), m.is_inf(), m.is_normal() ? m.exp() : 0, e,
                        ilogb(m)};
  ExactFloat lb = logb(m);
  return {Pack({Val(a), Val(b), Val(m), Val(l), Val(sc), Val(fr), Val(-a), Val(a + a), Val(lb)}), PI(p)};
}

int main() { return Serve(); }
