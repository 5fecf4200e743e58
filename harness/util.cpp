// C26: vectors, quaternions, elementary geometry, curves, disjoint sets and small helpers.
#include "pbt.h"
#include "geometrycentral/utilities/combining_hash_functions.h"
#include "geometrycentral/utilities/curve.h"
#include "geometrycentral/utilities/disjoint_sets.h"
#include "geometrycentral/utilities/elementary_geometry.h"
#include "geometrycentral/utilities/quaternion.h"
#include "geometrycentral/utilities/utilities.h"
#include "geometrycentral/utilities/vector2.h"
#include "geometrycentral/utilities/vector3.h"
#include "pbt_main.h"
#include <complex>
#include <unordered_map>
#include <unordered_set>

using namespace geometrycentral;
using pbt::G;
typedef long double LD;
typedef __int128 I;

static double anyNum(G& g) {
  double v = g.jitter(1.);
  return v * std::pow(10., g.range(0, 12) - 6.);
}
static double num(G& g) { return g.weighted({3, 1}) == 0 ? g.jitter(3.) : (double)g.range(-3, 3); }
static Vector2 v2(G& g) { return {num(g), num(g)}; }
static Vector3 v3(G& g) { return {num(g), num(g), num(g)}; }

static void planeVectors(G& g) {
  Vector2 a = v2(g), b = v2(g);
  double s = num(g), th = g.jitter(10);
  g.note("a", a), g.note("b", b), g.note("theta", th);
  std::complex<double> ca(a.x, a.y), cb(b.x, b.y);
  auto is = [&](Vector2 u, std::complex<double> c, const char* what) {
    REQ(g, std::abs(std::complex<double>(u.x, u.y) - c) <= 1e-9 * (1 + std::abs(c)), what << ": " << u << " for " << c);
  };
  is(a + b, ca + cb, "sum"), is(a - b, ca - cb, "difference"), is(a * b, ca * cb, "product"), is(a * s, ca * s, "scaled"), is(s * a, ca * s, "scaled");
  is(-a, -ca, "negated"), is(a.conj(), std::conj(ca), "conjugate"), is(a.rotate90(), ca * std::complex<double>(0, 1), "rotate90");
  is(a.rotateCCW(th), ca * std::polar(1., th), "rotateCCW"), is(a.rotateCW(th), ca * std::polar(1., -th), "rotateCW");
  is(Vector2::fromAngle(th), std::polar(1., th), "fromAngle"), is(Vector2::fromComplex(ca), ca, "fromComplex");
  REQ(g, (std::complex<double>)a == ca, "conversion to complex");
  Vector2 c = a;
  is(c += b, ca + cb, "+="), c = a, is(c -= b, ca - cb, "-="), c = a, is(c *= b, ca * cb, "*="), c = a, is(c *= s, ca * s, "*= s");
  c = a, is(c *= c, ca * ca, "*= itself");
  if (std::fabs(s) > 1e-3) is(a / s, ca / s, "quotient"), c = a, is(c /= s, ca / s, "/=");
  double la = std::abs(ca), lb = std::abs(cb);
  REQ_NEAR(g, norm(a), la, 1e-12 * (1 + la), "norm");
  REQ_NEAR(g, a.norm2(), la * la, 1e-12 * (1 + la * la), "norm2");
  REQ_NEAR(g, dot(a, b), (ca * std::conj(cb)).real(), 1e-12 * (1 + la * lb), "dot");
  REQ_NEAR(g, cross(a, b), (std::conj(ca) * cb).imag(), 1e-12 * (1 + la * lb), "cross");
  Vector3 c3 = cross3(a, b);
  REQ(g, c3.x == 0 && c3.y == 0, "cross3");
  REQ_NEAR(g, c3.z, cross(a, b), 1e-12 * (1 + la * lb), "cross3");
  REQ_NEAR(g, sum(a), a.x + a.y, 1e-12 * (1 + la), "sum of the components");
  double cut = g.real(0, 3);
  if (std::fabs(la - cut) > 1e-9) {
    Vector2 n = normalizeCutoff(a, cut);
    if (la <= cut)
      REQ(g, n == a, "a short vector is left as it is");
    else
      is(n, ca / la, "normalizeCutoff");
  }
  if (la < 1e-3 || lb < 1e-3) return;
  g.nontrivial();
  is(a / b, ca / cb, "quotient"), c = a, is(c /= b, ca / cb, "/="), c = a, is(c /= c, 1., "/= itself"), is(a.inv(), 1. / ca, "inverse");
  is(normalize(a), ca / la, "normalize"), is(a.unit(), ca / la, "unit");
  is(a.pow(s), std::pow(ca, s), "real power"), is(a.pow(b), std::pow(ca, cb), "complex power");
  double an = std::fabs(std::arg(cb / ca));
  REQ_NEAR(g, angle(a, b), an, 1e-6, "angle");
  REQ(g, angle(a, b) >= 0 && angle(a, b) <= PI + 1e-12, "range of the angle");
  double oa = orientedAngle(a, b);
  is(a.rotateCCW(oa) / la, cb / lb, "a turned by the oriented angle");
  REQ(g, std::fabs(oa) <= PI + 1e-12, "range of the oriented angle");
  REQ_NEAR(g, arg(a), std::arg(ca), 1e-12, "arg");
}

static void spaceVectors(G& g) {
  Vector3 a = v3(g), b = v3(g), c = v3(g);
  double s = num(g), th = g.jitter(10);
  g.note("a", a), g.note("b", b), g.note("c", c), g.note("theta", th);
  auto is = [&](Vector3 u, Vector3 v, double tol, const char* what) {
    for (int i = 0; i < 3; i++) REQ_NEAR(g, u[i], v[i], tol, what);
  };
  LD la = std::sqrt((LD)a.x * a.x + (LD)a.y * a.y + (LD)a.z * a.z), lb = std::sqrt((LD)b.x * b.x + (LD)b.y * b.y + (LD)b.z * b.z);
  is(a + b, {a.x + b.x, a.y + b.y, a.z + b.z}, 1e-12, "sum"), is(a - b, {a.x - b.x, a.y - b.y, a.z - b.z}, 1e-12, "difference");
  is(a * s, {a.x * s, a.y * s, a.z * s}, 1e-12, "scaled"), is(s * a, a * s, 1e-12, "scaled"), is(-a, {-a.x, -a.y, -a.z}, 0, "negated");
  Vector3 d = a;
  is(d += b, a + b, 1e-12, "+="), d = a, is(d -= b, a - b, 1e-12, "-="), d = a, is(d *= s, a * s, 1e-12, "*=");
  if (std::fabs(s) > 1e-3) is((a / s) * s, a, 1e-9, "quotient"), d = a, is(d /= s, a / s, 1e-9, "/=");
  REQ_NEAR(g, norm(a), (double)la, 1e-12, "norm");
  REQ_NEAR(g, norm2(a), (double)(la * la), 1e-11, "norm2");
  REQ_NEAR(g, dot(a, b), (double)((LD)a.x * b.x + (LD)a.y * b.y + (LD)a.z * b.z), 1e-11, "dot");
  REQ_NEAR(g, sum(a), a.x + a.y + a.z, 1e-12, "sum of the components");
  Vector3 x = cross(a, b);
  is(x, {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}, 1e-11, "cross");
  Vector3 lo = componentwiseMin(a, b), hi = componentwiseMax(a, b), cl = clamp(c, lo, hi);
  for (int i = 0; i < 3; i++) {
    REQ(g, lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]), "componentwise extremes");
    REQ(g, cl[i] == std::min(std::max(c[i], lo[i]), hi[i]), "clamp");
  }
  Vector2 p{a.x, a.y}, q{b.x, b.y}, r2 = clamp(Vector2{c.x, c.y}, componentwiseMin(p, q), componentwiseMax(p, q));
  REQ(g, r2.x == cl.x && r2.y == cl.y, "clamp in the plane");
  REQ(g, (a == b) == (a.x == b.x && a.y == b.y && a.z == b.z) && (a != b) == !(a == b), "equality");
  d = a;
  int k = g.range(0, 2);
  d[k] = g.coin() ? std::nan("") : INFINITY;
  REQ(g, isfinite(a) && !isfinite(d) && isDefined(d) == !std::isnan(d[k]) && isDefined(a), "isfinite, isDefined");
  // hashes agree on equal vectors, zeros of either sign included
  d = a;
  for (int i = 0; i < 3; i++)
    if (d[i] == 0) d[i] = -d[i];
  REQ(g, std::hash<Vector3>()(a) == std::hash<Vector3>()(d), "hash of an equal vector");
  REQ(g, std::hash<Vector2>()({a.x, a.y}) == std::hash<Vector2>()({d.x, d.y}), "hash of an equal vector in the plane");
  std::ostringstream o;
  o << a;
  REQ(g, std::to_string(a) == o.str() && o.str()[0] == '<', "printed vector");
  double cut = g.real(0, 4);
  if (std::fabs((double)la - cut) > 1e-9) {
    Vector3 n = normalizeCutoff(a, cut);
    is(n, la <= cut ? a : a * (double)(1 / la), 1e-9, "normalizeCutoff");
  }
  if (la < 1e-2 || lb < 1e-2) return;
  g.nontrivial();
  is(normalize(a) * (double)la, a, 1e-9, "normalize"), is(a.unit() * (double)la, a, 1e-9, "unit");
  double an = angle(a, b);
  LD ax = std::sqrt((LD)x.x * x.x + (LD)x.y * x.y + (LD)x.z * x.z);
  REQ_NEAR(g, an, (double)std::atan2(ax, (LD)dot(a, b)), 1e-6, "angle");
  Vector3 u = b * (double)(1 / lb);
  is(a.removeComponent(u), a - u * dot(a, u), 1e-9, "removeComponent");
  REQ_NEAR(g, dot(a.removeComponent(u), u), 0, 1e-9, "the component is gone");
  // Rodrigues
  Vector3 rod = a * std::cos(th) + cross(u, a) * std::sin(th) + u * (dot(u, a) * (1 - std::cos(th)));
  is(a.rotateAround(b, th), rod, 1e-8, "rotateAround");
  std::array<Vector3, 2> B = a.buildTangentBasis();
  Vector3 ua = a * (double)(1 / la);
  REQ_NEAR(g, norm(B[0]), 1, 1e-9, "unit basis");
  REQ_NEAR(g, norm(B[1]), 1, 1e-9, "unit basis");
  REQ_NEAR(g, dot(B[0], ua), 0, 1e-9, "basis orthogonal to the vector");
  is(cross(B[0], B[1]), ua, 1e-8, "the basis is right-handed");
  // angle in the plane: turn the projection of a by it to get the direction of b's
  Vector3 N = c;
  if (norm(N) < 1e-2) return;
  Vector3 n = N / norm(N), pa = a - n * dot(a, n), pb = b - n * dot(b, n);
  if (norm(pa) < 1e-2 || norm(pb) < 1e-2) return;
  double al = angleInPlane(a, b, N);
  REQ(g, std::fabs(al) <= PI + 1e-12, "range of angleInPlane");
  Vector3 w = pa / norm(pa);
  is(w * std::cos(al) + cross(n, w) * std::sin(al), pb / norm(pb), 1e-8, "angleInPlane");
}

static void quaternions(G& g) {
  double p[4], q[4];
  for (int i = 0; i < 4; i++) p[i] = num(g), q[i] = num(g);
  Quaternion P(p[0], p[1], p[2], p[3]), Q(q[0], Vector3{q[1], q[2], q[3]});
  for (int i = 0; i < 4; i++) REQ(g, P[i] == p[i] && Q[i] == q[i], "component " << i);
  REQ(g, P.re() == p[0] && P.im() == (Vector3{p[1], p[2], p[3]}), "parts");
  double r[4];
  r[0] = p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3];
  r[1] = p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2];
  r[2] = p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1];
  r[3] = p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0];
  auto is = [&](const Quaternion& u, std::array<double, 4> v, const char* what) {
    for (int i = 0; i < 4; i++) REQ_NEAR(g, u[i], v[i], 1e-9 * (1 + std::fabs(v[i])), what << " component " << i);
  };
  is(P * Q, {r[0], r[1], r[2], r[3]}, "Hamilton product");
  Quaternion A = P;
  A *= Q, is(A, {r[0], r[1], r[2], r[3]}, "*=");
  A = P, A *= A;
  is(A, {p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3], 2 * p[0] * p[1], 2 * p[0] * p[2], 2 * p[0] * p[3]}, "*= itself");
  double M[4][4];
  P.toMatrix(M);
  for (int i = 0; i < 4; i++) REQ_NEAR(g, M[i][0] * q[0] + M[i][1] * q[1] + M[i][2] * q[2] + M[i][3] * q[3], r[i], 1e-9 * (1 + std::fabs(r[i])), "matrix of the product");
  double s = num(g);
  is(P + Q, {p[0] + q[0], p[1] + q[1], p[2] + q[2], p[3] + q[3]}, "sum"), is(P - Q, {p[0] - q[0], p[1] - q[1], p[2] - q[2], p[3] - q[3]}, "difference");
  is(-P, {-p[0], -p[1], -p[2], -p[3]}, "negated"), is(P * s, {p[0] * s, p[1] * s, p[2] * s, p[3] * s}, "scaled"), is(s * P, {p[0] * s, p[1] * s, p[2] * s, p[3] * s}, "scaled");
  is(P.bar(), {p[0], -p[1], -p[2], -p[3]}, "conjugate"), is(conjugate(P), {p[0], -p[1], -p[2], -p[3]}, "conjugate");
  A = P, A += Q, is(A, {p[0] + q[0], p[1] + q[1], p[2] + q[2], p[3] + q[3]}, "+="), A = P, A -= Q, is(A, {p[0] - q[0], p[1] - q[1], p[2] - q[2], p[3] - q[3]}, "-=");
  A = P, A += s, is(A, {p[0] + s, p[1], p[2], p[3]}, "+= real"), A = P, A -= s, is(A, {p[0] - s, p[1], p[2], p[3]}, "-= real"), A = P, A *= s, is(A, {p[0] * s, p[1] * s, p[2] * s, p[3] * s}, "*= real");
  A = s, is(A, {s, 0, 0, 0}, "assigned real"), A = Vector3{p[1], p[2], p[3]}, is(A, {0, p[1], p[2], p[3]}, "assigned vector");
  is(Quaternion(), {0, 0, 0, 0}, "zero"), is(Quaternion(s), {s, 0, 0, 0}, "real"), is(Quaternion(Vector3{p[1], p[2], p[3]}), {0, p[1], p[2], p[3]}, "imaginary");
  double n2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3];
  REQ_NEAR(g, P.norm2(), n2, 1e-9 * (1 + n2), "norm2");
  REQ_NEAR(g, P.norm(), std::sqrt(n2), 1e-9 * (1 + n2), "norm");
  REQ_NEAR(g, (P * Q).norm(), P.norm() * Q.norm(), 1e-9 * (1 + P.norm() * Q.norm()), "the norm is multiplicative");
  if (std::fabs(s) > 1e-3) is(P / s, {p[0] / s, p[1] / s, p[2] / s, p[3] / s}, "quotient"), A = P, A /= s, is(A, {p[0] / s, p[1] / s, p[2] / s, p[3] / s}, "/=");
  if (n2 < 1e-4) return;
  g.nontrivial();
  is(P * P.inv(), {1, 0, 0, 0}, "inverse"), is(P.inv() * P, {1, 0, 0, 0}, "inverse");
  double n = std::sqrt(n2);
  is(P.unit(), {p[0] / n, p[1] / n, p[2] / n, p[3] / n}, "unit"), A = P, A.normalize(), is(A, {p[0] / n, p[1] / n, p[2] / n, p[3] / n}, "normalize");
}

static void triangles(G& g) {
  double sc = std::pow(10., g.range(0, 8) - 4.);
  Vector2 a = v2(g) * sc, b = v2(g) * sc, c = v2(g) * sc;
  LD A2 = ((LD)b.x - a.x) * ((LD)c.y - a.y) - ((LD)b.y - a.y) * ((LD)c.x - a.x);
  double la = norm(b - c), lb = norm(c - a), lc = norm(a - b), L = std::max({la, lb, lc});
  if (std::min({la, lb, lc}) < 1e-2 * sc) throw pbt::Discard();
  REQ(g, triangleIsValid(la, lb, lc, 1e-9 * L), "lengths of a triangle");
  double t = g.real(.01, 1) * L;
  REQ(g, !triangleIsValid(la, lb, la + lb + t) && !triangleIsValid(la, la + lb + t, lb) && !triangleIsValid(la + lb + t, lb, la), "one side is too long");
  REQ(g, triangleIsValid(la, lb, la + lb + t, 1.01 * t) && !triangleIsValid(la, lb, la + lb + t, .99 * t), "tolerance of the triangle inequality");
  REQ(g, triangleArea(la, lb, la + lb + t) == 0 && triangleArea(la + lb + t, lb, la) == 0, "area without the triangle inequality");
  if (std::fabs((double)A2) < 1e-3 * L * L) return;
  g.nontrivial();
  REQ_NEAR(g, triangleArea(la, lb, lc), (double)std::fabs(A2) / 2, 1e-9 * L * L, "area");
  Vector2 pc = layoutTriangleVertex(a, b, la, lb);
  REQ_NEAR(g, norm(pc - b), la, 1e-8 * L, "laid out length");
  REQ_NEAR(g, norm(pc - a), lb, 1e-8 * L, "laid out length");
  REQ(g, cross(b - a, pc - a) > 0, "laid out counter-clockwise");
  if (A2 > 0) REQ(g, norm(pc - c) <= 1e-8 * L, "the corner itself");
  // in circle, in exact arithmetic on integers
  int64_t x[4], y[4];
  for (int i = 0; i < 4; i++) x[i] = g.range(-50, 50), y[i] = g.range(-50, 50);
  double s2 = std::ldexp(1., g.range(-20, 20));
  auto P = [&](int i) { return Vector2{x[i] * s2, y[i] * s2}; };
  I o = (I)(x[1] - x[0]) * (y[2] - y[0]) - (I)(y[1] - y[0]) * (x[2] - x[0]);
  if (o < 0) std::swap(x[1], x[2]), std::swap(y[1], y[2]);
  if (o == 0) return;
  I m[3][3];
  for (int i = 0; i < 3; i++) m[i][0] = x[i] - x[3], m[i][1] = y[i] - y[3], m[i][2] = m[i][0] * m[i][0] + m[i][1] * m[i][1];
  I det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  if (det == 0) return;
  int r = g.range(0, 2);
  REQ(g, inCircleTest(P(r), P((r + 1) % 3), P((r + 2) % 3), P(3)) == (det > 0), "point in the circle");
  g.label(det > 0 ? "in circle" : "out of circle");
}

static void segments(G& g) {
  double sc = std::pow(10., g.range(0, 6) - 3.);
  Vector3 p = v3(g) * sc, a = v3(g) * sc, b = g.chance(.1) ? a : v3(g) * sc;
  auto oracle = [&](Vector3 p, Vector3 a, Vector3 b, LD& t) {
    LD d[3], e[3], dd = 0, de = 0;
    for (int i = 0; i < 3; i++) d[i] = (LD)b[i] - a[i], e[i] = (LD)p[i] - a[i], dd += d[i] * d[i], de += d[i] * e[i];
    t = dd > 0 ? std::min((LD)1, std::max((LD)0, de / dd)) : 0;
    LD r = 0;
    for (int i = 0; i < 3; i++) r += (e[i] - t * d[i]) * (e[i] - t * d[i]);
    return std::sqrt(r);
  };
  LD t;
  LD d = oracle(p, a, b, t);
  double size = norm(p) + norm(a) + norm(b);
  REQ_NEAR(g, pointLineSegmentDistance(p, a, b), (double)d, 1e-7 * size, "distance to the segment");
  if (norm(a - b) > 1e-2 * size) REQ_NEAR(g, pointLineSegmentNeaestLocation(p, a, b), (double)t, 1e-7, "nearest location");
  g.label(t == 0 ? "start" : t == 1 ? "end" : "inside");
  LD d2 = oracle({p.x, p.y, 0}, {a.x, a.y, 0}, {b.x, b.y, 0}, t);
  REQ_NEAR(g, pointLineSegmentDistance(Vector2{p.x, p.y}, Vector2{a.x, a.y}, Vector2{b.x, b.y}), (double)d2, 1e-7 * size, "distance to the segment in the plane");
  // fourth corner of a tetrahedron
  Vector3 q[4];
  for (auto& u : q) u = v3(g) * sc;
  double vol = dot(cross(q[1] - q[0], q[2] - q[0]), q[3] - q[0]), L = 0;
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < i; j++) L = std::max(L, norm(q[i] - q[j]));
  if (std::fabs(vol) > 1e-2 * L * L * L) {
    g.nontrivial();
    Vector3 f = tetFourthPoint(q[0], q[1], q[2], norm(q[3] - q[0]), norm(q[3] - q[1]), norm(q[3] - q[2]));
    for (int i = 0; i < 3; i++) REQ_NEAR(g, norm(f - q[i]), norm(q[3] - q[i]), 1e-7 * L, "length to the fourth point");
    Vector3 f2 = tetFourthPoint(q[1], q[0], q[2], norm(q[3] - q[1]), norm(q[3] - q[0]), norm(q[3] - q[2]));
    double v1 = dot(cross(q[1] - q[0], q[2] - q[0]), f - q[0]), v2 = dot(cross(q[1] - q[0], q[2] - q[0]), f2 - q[0]);
    REQ(g, v1 * v2 < 0, "the side depends on the orientation of the base");
    Vector3 f3 = tetFourthPoint(q[1], q[2], q[0], norm(q[3] - q[1]), norm(q[3] - q[2]), norm(q[3] - q[0]));
    REQ(g, norm(f3 - f) <= 1e-6 * L, "the base may start at any corner");
  }
  // crossings, exactly on integers
  int64_t x[4], y[4];
  for (int i = 0; i < 4; i++) x[i] = g.range(-8, 8), y[i] = g.range(-8, 8);
  double s2 = std::ldexp(1., g.range(-20, 20));
  auto P = [&](int i) { return Vector2{x[i] * s2, y[i] * s2}; };
  auto orient = [&](int i, int j, int k) { return (x[j] - x[i]) * (y[k] - y[i]) - (y[j] - y[i]) * (x[k] - x[i]); };
  if ((x[0] == x[1] && y[0] == y[1]) || (x[2] == x[3] && y[2] == y[3])) return;
  int64_t den = (x[1] - x[0]) * (y[3] - y[2]) - (y[1] - y[0]) * (x[3] - x[2]);
  if (den == 0) return;
  // parameters
  LD ta = (LD)((x[2] - x[0]) * (y[3] - y[2]) - (y[2] - y[0]) * (x[3] - x[2])) / den, tb = (LD)((x[2] - x[0]) * (y[1] - y[0]) - (y[2] - y[0]) * (x[1] - x[0])) / den;
  SegmentSegmentIntersectionResult2D r = segmentSegmentIntersection(P(0), P(1), P(2), P(3));
  REQ_NEAR(g, r.tA, (double)ta, 1e-9 * (1 + std::fabs((double)ta)), "parameter along the first segment");
  REQ_NEAR(g, r.tB, (double)tb, 1e-9 * (1 + std::fabs((double)tb)), "parameter along the second segment");
  int64_t o1 = orient(0, 1, 2), o2 = orient(0, 1, 3), o3 = orient(2, 3, 0), o4 = orient(2, 3, 1);
  if (o1 && o2 && o3 && o4) {
    bool hit = (o1 > 0) != (o2 > 0) && (o3 > 0) != (o4 > 0);
    REQ(g, r.hit == hit, "segments " << (hit ? "cross" : "do not cross"));
    g.label(hit ? "crossing segments" : "disjoint segments");
  }
  double k = g.real(.1, 3);
  RaySegmentIntersectionResult2D rs = raySegmentIntersection(P(0), (P(1) - P(0)) * k, P(2), P(3));
  REQ_NEAR(g, rs.tRay * k, (double)ta, 1e-9 * (1 + std::fabs((double)ta)), "parameter along the ray");
  REQ_NEAR(g, rs.tLine, (double)tb, 1e-9 * (1 + std::fabs((double)tb)), "parameter along the line");
  double k2 = g.real(.1, 3);
  RayRayIntersectionResult2D rr = rayRayIntersection(P(0), (P(1) - P(0)) * k, P(2), (P(3) - P(2)) * k2);
  REQ_NEAR(g, rr.tRay1 * k, (double)ta, 1e-9 * (1 + std::fabs((double)ta)), "parameter along the first ray");
  REQ_NEAR(g, rr.tRay2 * k2, (double)tb, 1e-9 * (1 + std::fabs((double)tb)), "parameter along the second ray");
}

// triangles with integer corners; only pairs whose answer does not hang on touching features
static void trianglePairs(G& g) {
  int64_t p[6][3];
  int K = g.pick(std::vector<int>{4, 10, 30});
  bool flat = g.chance(.2);
  for (auto& v : p)
    for (int k = 0; k < 3; k++) v[k] = k == 2 && flat ? 0 : g.range(-K, K);
  int ax = g.range(0, 2); // which axis is flat
  for (auto& v : p) std::rotate(v, v + ax, v + 3);
  auto orient3 = [&](int a, int b, int c, int d) {
    I u[3][3];
    int id[3] = {b, c, d};
    for (int i = 0; i < 3; i++)
      for (int k = 0; k < 3; k++) u[i][k] = p[id[i]][k] - p[a][k];
    I det = u[0][0] * (u[1][1] * u[2][2] - u[1][2] * u[2][1]) - u[0][1] * (u[1][0] * u[2][2] - u[1][2] * u[2][0]) + u[0][2] * (u[1][0] * u[2][1] - u[1][1] * u[2][0]);
    return det > 0 ? 1 : det < 0 ? -1 : 0;
  };
  auto degenerate = [&](int a) {
    int64_t u[3], v[3];
    for (int k = 0; k < 3; k++) u[k] = p[a + 1][k] - p[a][k], v[k] = p[a + 2][k] - p[a][k];
    return u[1] * v[2] == u[2] * v[1] && u[2] * v[0] == u[0] * v[2] && u[0] * v[1] == u[1] * v[0];
  };
  if (degenerate(0) || degenerate(3)) throw pbt::Discard();
  double s = std::ldexp(1., g.range(-30, 20));
  Vector3 shift{(double)g.range(-20, 20), (double)g.range(-20, 20), (double)g.range(-20, 20)};
  auto P = [&](int i) { return (Vector3{(double)p[i][0], (double)p[i][1], (double)p[i][2]} + shift) * s; };
  bool cop = !orient3(0, 1, 2, 3) && !orient3(0, 1, 2, 4) && !orient3(0, 1, 2, 5);
  bool hit = false;
  if (cop) {
    // in the plane: drop the axis of largest normal component
    int64_t u[3], v[3], n[3];
    for (int k = 0; k < 3; k++) u[k] = p[1][k] - p[0][k], v[k] = p[2][k] - p[0][k];
    for (int k = 0; k < 3; k++) n[k] = std::llabs(u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3]);
    int k = n[0] >= n[1] && n[0] >= n[2] ? 0 : n[1] >= n[2] ? 1 : 2, i0 = (k + 1) % 3, i1 = (k + 2) % 3;
    auto o2 = [&](int a, int b, int c) {
      int64_t d = (p[b][i0] - p[a][i0]) * (p[c][i1] - p[a][i1]) - (p[b][i1] - p[a][i1]) * (p[c][i0] - p[a][i0]);
      return d > 0 ? 1 : d < 0 ? -1 : 0;
    };
    for (int i = 0; i < 3; i++)
      for (int j = 3; j < 6; j++) {
        int a = i, b = (i + 1) % 3, c = j, d = 3 + (j - 2) % 3;
        int w[4] = {o2(a, b, c), o2(a, b, d), o2(c, d, a), o2(c, d, b)};
        if (!w[0] || !w[1] || !w[2] || !w[3]) throw pbt::Discard();
        if (w[0] != w[1] && w[2] != w[3]) hit = true;
      }
    auto inside = [&](int q, int a) {
      int x = o2(a, a + 1, q), y = o2(a + 1, a + 2, q), z = o2(a + 2, a, q);
      return x == y && y == z;
    };
    bool contained = inside(0, 3) || inside(3, 0);
    if (contained && !hit) g.label("coplanar, contained");
    hit = hit || contained;
  } else {
    for (int side = 0; side < 2; side++) {
      int t = 3 * side, o = 3 - t;
      for (int i = 0; i < 3; i++) {
        int a = o + i, b = o + (i + 1) % 3;
        int x = orient3(t, t + 1, t + 2, a), y = orient3(t, t + 1, t + 2, b);
        if (!x || !y) throw pbt::Discard();
        if (x == y) continue;
        int u = orient3(a, b, t, t + 1), v = orient3(a, b, t + 1, t + 2), w = orient3(a, b, t + 2, t);
        if (!u || !v || !w) throw pbt::Discard();
        if (u == v && v == w) hit = true;
      }
    }
  }
  g.nontrivial();
  g.label(cop ? (hit ? "coplanar, overlapping" : "coplanar, disjoint") : hit ? "crossing" : "disjoint");
  TriTriIntersectionResult3D r = triTriIntersection(P(0), P(1), P(2), P(3), P(4), P(5));
  REQ(g, r.intersect == hit, "the triangles " << (hit ? "intersect" : "are disjoint"));
  if (!hit) return;
  REQ(g, r.coplanar == cop, "coplanar");
  if (cop) return;
  // the segment lies in both triangles, and its ends on the boundary of one of them
  for (Vector3 x : {r.xA, r.xB}) {
    bool edge = false;
    for (int t : {0, 3}) {
      Vector3 A = P(t), e1 = P(t + 1) - A, e2 = P(t + 2) - A, N = cross(e1, e2);
      double n2 = N.norm2();
      double size = norm(e1) + norm(e2);
      Vector3 w = x - A;
      double h = dot(w, N) / std::sqrt(n2), b1 = dot(cross(w, e2), N) / n2, b2 = dot(cross(e1, w), N) / n2;
      double cond = size * size / std::sqrt(n2);
      REQ(g, std::fabs(h) <= 1e-8 * (size + s * 60), "end of the segment off the plane by " << h);
      REQ(g, b1 >= -1e-8 * cond && b2 >= -1e-8 * cond && b1 + b2 <= 1 + 1e-8 * cond, "end of the segment outside the triangle");
      if (std::min({b1, b2, 1 - b1 - b2}) <= 1e-8 * cond) edge = true;
    }
    REQ(g, edge, "end of the segment is on no edge");
  }
  // both ends are not the same point, and swapping the triangles gives the same segment
  TriTriIntersectionResult3D q = triTriIntersection(P(3), P(5), P(4), P(1), P(0), P(2));
  double tol = 1e-6 * s * K;
  REQ(g, q.intersect && ((norm(q.xA - r.xA) <= tol && norm(q.xB - r.xB) <= tol) || (norm(q.xA - r.xB) <= tol && norm(q.xB - r.xA) <= tol)), "the segment depends on the order");
}

template <typename T>
static void curveOf(G& g, T (*gen)(G&)) {
  HermiteCurve<T> c;
  size_t n = g.range(0, 6);
  std::vector<T> v, d;
  for (size_t i = 0; i < n; i++) v.push_back(gen(g)), d.push_back(gen(g)), c.addNode(v.back(), d.back());
  const Curve<T>& base = c;
  auto is = [&](T a, T b, const char* what) { REQ(g, norm(a - b) <= 1e-8 * (1 + norm(b)), what << ": " << a << " for " << b); };
  REQ_NEAR(g, base.length(), n == 0 ? 0. : n - 1., 1e-12, "length");
  if (n == 0) {
    is(base.value(g.real(0, 2)), T::zero(), "empty curve");
    return;
  }
  g.nontrivial();
  if (n == 1) {
    double t = g.jitter(3);
    is(base(t), v[0] + t * d[0], "curve of one node"), is(base(t, 1), d[0], "derivative"), is(base(t, 2), T::zero(), "second derivative");
    return;
  }
  for (size_t i = 0; i < n; i++) is(base.value(i), v[i], "value at a node"), is(base.derivative(i, 1), d[i], "derivative at a node");
  for (int rep = 0; rep < 4; rep++) {
    size_t i = g.below(n - 1);
    double u = g.unit(), t = i + u;
    // the segment in Bezier form
    T b[4] = {v[i], v[i] + d[i] / 3., v[i + 1] - d[i + 1] / 3., v[i + 1]};
    double w[4] = {(1 - u) * (1 - u) * (1 - u), 3 * u * (1 - u) * (1 - u), 3 * u * u * (1 - u), u * u * u};
    is(base(t), w[0] * b[0] + w[1] * b[1] + w[2] * b[2] + w[3] * b[3], "value");
    T e[3] = {3. * (b[1] - b[0]), 3. * (b[2] - b[1]), 3. * (b[3] - b[2])};
    is(base(t, 1), (1 - u) * (1 - u) * e[0] + 2 * u * (1 - u) * e[1] + u * u * e[2], "first derivative");
    T f[2] = {2. * (e[1] - e[0]), 2. * (e[2] - e[1])};
    is(base(t, 2), (1 - u) * f[0] + u * f[1], "second derivative"), is(base(t, 3), f[1] - f[0], "third derivative"), is(base(t, 4), T::zero(), "fourth derivative");
    is(base(t, 0), base(t), "zeroth derivative");
  }
  is(base(base.length()), v[n - 1], "end of the curve"), is(base(base.length(), 1), d[n - 1], "derivative at the end");
}
static void curves(G& g) {
  if (g.coin())
    curveOf<Vector2>(g, v2);
  else
    curveOf<Vector3>(g, v3);
}

static void sets(G& g) {
  size_t n = g.range(0, 12);
  DisjointSets a(n);
  MarkedDisjointSets b(n);
  std::vector<size_t> part(n);
  std::vector<char> mark(n, 0); // by part
  for (size_t i = 0; i < n; i++) part[i] = i;
  if (!n) return;
  int ops = g.range(0, 40);
  for (int k = 0; k < ops; k++) {
    size_t x = g.below(n), y = g.below(n);
    switch (g.weighted({4, 1, 1, 1})) {
    case 0: {
      a.merge(x, y), b.merge(x, y);
      size_t px = part[x], py = part[y];
      if (px != py) {
        g.nontrivial();
        mark[px] = mark[px] || mark[py];
        for (size_t& q : part)
          if (q == py) q = px;
      }
      break;
    }
    case 1: b.mark(x), mark[part[x]] = 1; break;
    case 2: b.unmark(x), mark[part[x]] = 0; break;
    case 3: a.find(x), b.find(y); break;
    }
    for (size_t i = 0; i < n; i++) {
      REQ(g, a.find(i) < n && a.find(a.find(i)) == a.find(i), "representative");
      REQ(g, b.isMarked(i) == (bool)mark[part[i]], "mark of " << i);
      for (size_t j = 0; j < i; j++) {
        REQ(g, (a.find(i) == a.find(j)) == (part[i] == part[j]), "sets of " << i << " and " << j);
        REQ(g, (b.find(i) == b.find(j)) == (part[i] == part[j]), "marked sets of " << i << " and " << j);
      }
    }
  }
}

static void helpers(G& g) {
  double th = g.weighted({3, 1, 1}) == 0 ? anyNum(g) : g.coin() ? -std::ldexp(g.real(.5, 1), -g.range(1, 60)) : 2 * PI * g.range(-40, 40) + g.range(-3, 3) * 1e-15;
  g.note("theta", th);
  double r = regularizeAngle(th);
  REQ(g, r >= 0 && r < 2 * PI, "regularizeAngle(" << th << ") = " << r);
  double k = (th - r) / (2 * PI);
  REQ_NEAR(g, k, std::round(k), 1e-9 * (1 + std::fabs(th)), "regularized by whole turns");
  double lo = num(g), hi = lo + std::fabs(num(g)), v = num(g);
  double cl = clamp(v, lo, hi);
  REQ(g, cl == std::min(std::max(v, lo), hi), "clamp");
  // permutations with holes
  size_t n = g.range(0, 10);
  std::vector<int> src(n);
  for (size_t i = 0; i < n; i++) src[i] = g.range(0, 4);
  std::vector<size_t> p = g.perm(n);
  p.resize(g.below(n + 1));
  for (size_t& q : p)
    if (g.chance(.2)) q = INVALID_IND;
  std::vector<int> out = applyPermutation(src, p);
  REQ(g, out.size() == p.size(), "size of the permuted vector");
  for (size_t i = 0; i < p.size(); i++)
    if (p[i] != INVALID_IND) REQ(g, out[i] == src[p[i]], "entry " << i << " of the permuted vector");
  // removal, also of an element named by reference into the vector
  std::vector<int> w = src, want;
  int x = g.range(0, 5);
  size_t at = n ? g.below(n) : 0;
  bool alias = n && g.coin();
  int val = alias ? w[at] : x;
  for (int i : src)
    if (i != val) want.push_back(i);
  if (alias)
    removeFromVector(w, w[at]);
  else
    removeFromVector(w, x);
  REQ(g, w == want, "removal of every occurrence of " << val << (alias ? " (by reference into the vector)" : ""));
  if (n > 2) g.nontrivial();
  // text
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < n; i++) o << (i ? "," : "") << src[i];
  o << "]";
  REQ(g, geometrycentral::to_string(src) == o.str(), "printed vector");
  std::string word(g.range(0, 300), 'x');
  REQ(g, str_printf("%s-%d", word.c_str(), x) == word + "-" + std::to_string(x), "str_printf");
  // random numbers stay in range
  int a = g.range(-5, 5), b = a + g.range(0, 3);
  std::set<int> seen;
  for (int i = 0; i < 200; i++) {
    int q = randomInt(a, b);
    REQ(g, q >= a && q <= b, "randomInt");
    seen.insert(q);
    size_t m = 1 + (size_t)(b - a), ri = randomIndex(m);
    REQ(g, ri < m, "randomIndex");
    double d = randomReal(lo, hi), u = unitRand();
    REQ(g, d >= lo && d <= hi && u >= 0 && u <= 1, "randomReal, unitRand");
    REQ(g, std::isfinite(randomNormal(lo, .1 + hi - lo)), "randomNormal");
  }
  REQ(g, (int)seen.size() == b - a + 1, "randomInt reaches both ends of its range");
  REQ(g, conj(v) == v && conj(std::complex<double>(v, lo)) == std::complex<double>(v, -lo), "conj");
  REQ(g, geometrycentral::isfinite(std::complex<double>(v, lo)) && !geometrycentral::isfinite(std::complex<double>(v, INFINITY)) && !geometrycentral::isfinite(std::complex<double>(std::nan(""), lo)), "isfinite of a complex number");
  // hashed pairs and tuples find what was stored under an equal key
  std::unordered_map<std::pair<int, size_t>, int> m1;
  std::unordered_map<std::tuple<int, size_t, double>, int> m2;
  std::map<std::pair<int, size_t>, int> r1;
  for (size_t i = 0; i < n; i++) m1[{src[i], i % 3}] = i, r1[{src[i], i % 3}] = i, m2[std::make_tuple(src[i], i, .5)] = i;
  REQ(g, m1.size() == r1.size() && m2.size() == n, "number of hashed keys");
  for (auto& e : r1) REQ(g, m1.count(e.first) && m1[e.first] == e.second, "hashed pair");
  for (size_t i = 0; i < n; i++) REQ(g, m2.count(std::make_tuple(src[i], i, .5)), "hashed tuple");
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C26",
                   "vectors and quaternions with real and small integer components (zeros included), triangles and segments at scales 1e-4 to 1e4, pairs of triangles "
                   "and segments with integer corners scaled by powers of two, curves of 0 to 6 nodes, histories of up to 40 set operations; non-trivial: no zero "
                   "vectors, non-degenerate triangles, at least one node, at least one real union, three or more elements",
                   {{"plane", planeVectors, 30000, 1000000},
                    {"space", spaceVectors, 30000, 1000000},
                    {"quaternions", quaternions, 20000, 500000},
                    {"triangles", triangles, 20000, 500000},
                    {"segments", segments, 20000, 500000},
                    {"pairs", trianglePairs, 30000, 1000000},
                    {"curves", curves, 15000, 300000},
                    {"sets", sets, 4000, 100000},
                    {"helpers", helpers, 4000, 60000}},
                   {"pairs of touching triangles and parallel segments are not decided; the in-circle test is stated for counter-clockwise triangles"}});
  return pbt::run(argc, argv, specs);
}
