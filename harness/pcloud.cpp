// C24: point clouds and their geometry; C25: heat solvers on point clouds
#include "geomutil.h"
#include "pbt_main.h"
#include "pointutil.h"

#include "geometrycentral/pointcloud/local_triangulation.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_cloud_heat_solver.h"
#include "geometrycentral/pointcloud/point_cloud_io.h"
#include "geometrycentral/pointcloud/point_position_frame_geometry.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/pointcloud/point_position_normal_geometry.h"
#include "geometrycentral/pointcloud/sample_cloud.h"
#include "geometrycentral/utilities/knn.h"

#include <dirent.h>
#include <unistd.h>

using namespace mg;
using namespace geometrycentral::pointcloud;
typedef Eigen::MatrixXd MD;
typedef Eigen::VectorXd VD;

// ---------------------------------------------------------------- inputs
struct Cl {
  std::vector<Vector3> P;
  bool planar = false, degenerate = false; // degenerate: coincident, collinear or cocircular points
  double scale = 1;
};
static Cl genCloud(G& g, int lo, int hi, bool allowDegenerate) {
  Cl c;
  int n = g.range(lo, hi);
  int kind = g.weighted({4, 3, 3, 2, allowDegenerate ? 3 : 0, allowDegenerate ? 2 : 0, allowDegenerate ? 2 : 0});
  if (g.chance(.2)) c.scale = std::pow(10., g.range(-3, 3));
  Vector3 off = g.chance(.3) ? Vector3{g.jitter(5), g.jitter(5), g.jitter(5)} : Vector3{0, 0, 0};
  const char* names[] = {"plane", "sphere", "surface", "space", "grid", "duplicates", "straight side"};
  g.note("cloud ", names[kind], " n=", n, " scale=", c.scale);
  g.label(names[kind]);
  Vector3 N = Vector3{g.jitter(1), g.jitter(1), 1.2}.normalize();
  auto B = N.buildTangentBasis();
  for (int i = 0; i < n; i++) {
    double x = g.jitter(1), y = g.jitter(1), z = g.jitter(1);
    Vector3 p;
    switch (kind) {
    case 0: p = B[0] * x + B[1] * y; break;
    case 6: p = i % 3 ? B[0] * x + B[1] * (std::fabs(y) + .01) : B[0] * x; break;
    case 1: {
      p = Vector3{x, y, z};
      if (p.norm() < .1) g.discard();
      p = p.normalize();
      break;
    }
    case 2: p = Vector3{x, y, .4 * std::sin(2 * x + y) + .02 * z}; break;
    case 3: p = Vector3{x, y, z}; break;
    case 4: p = Vector3{(double)(i % 6), (double)(i / 6), g.chance(.1) ? 1. : 0.}; break;
    default:
      p = !c.P.empty() && g.chance(.4) ? (c.P[g.below(c.P.size())] - off) / c.scale : Vector3{x, y, .2 * x * y};
      if (g.chance(.15)) p = Vector3{x, 0, 0};
    }
    c.P.push_back((p + off) * c.scale);
  }
  c.planar = kind == 0 || kind == 6;
  c.degenerate = kind == 4 || kind == 5;
  for (size_t i = 0; i < c.P.size() && i < 40; i++) g.note("p", i, "=", c.P[i]);
  if (!c.degenerate)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        if ((c.P[i] - c.P[j]).norm() < 1e-3 * c.scale) g.discard();
  g.nontrivial();
  return c;
}
static PointData<Vector3> dataOf(PointCloud& c, const std::vector<Vector3>& P) {
  PointData<Vector3> d(c);
  for (size_t i = 0; i < P.size(); i++) d[c.point(i)] = P[i];
  return d;
}

// ---------------------------------------------------------------- C24 cloud
static void basics(G& g) {
  int n = g.range(0, 40);
  std::unique_ptr<PointCloud> c(new PointCloud(n));
  g.note("n=", n);
  REQ(g, c->nPoints() == (size_t)n && c->nPointsCapacity() == (size_t)n && c->isCompressed(), "a new cloud");
  PointData<double> a(*c, 3.5);
  PointData<int> shortlived;
  std::vector<double> model(n, 3.5);
  int ops = g.range(0, 20);
  std::vector<std::unique_ptr<PointData<double>>> others;
  for (int k = 0; k < ops; k++) {
    switch (g.below(5)) {
    case 0:
      if (n) {
        size_t i = g.below(n);
        model[i] = g.jitter(2);
        if (g.coin())
          a[c->point(i)] = model[i];
        else
          a[i] = model[i];
      }
      break;
    case 1: {
      others.emplace_back(new PointData<double>(a));
      break;
    }
    case 2:
      if (others.size()) others.erase(others.begin() + g.below(others.size()));
      break;
    case 3: c->compress(); break;
    default:
      if (others.size()) {
        size_t i = g.below(others.size());
        PointData<double> t = std::move(*others[i]);
        *others[i] = std::move(t);
      }
    }
    size_t i = 0;
    for (Point p : c->points()) {
      REQ(g, p.getIndex() == i && p.getMesh() == c.get() && p == c->point(i), "points are visited in order");
      REQ(g, a[p] == model[i], "data of point " << i);
      i++;
    }
    REQ(g, i == (size_t)n, "visited " << i << " points");
  }
  c->validateConnectivity();
  PointData<size_t> ind = c->getPointIndices();
  for (int i = 0; i < n; i++) REQ(g, ind[c->point(i)] == (size_t)i, "index of " << i);
  std::unique_ptr<PointCloud> d = c->copy();
  REQ(g, d->nPoints() == (size_t)n && d->isCompressed(), "copy");
  d->validateConnectivity();
  PointData<double> b = a.reinterpretTo(*d);
  for (int i = 0; i < n; i++) REQ(g, b[d->point(i)] == model[i], "reinterpreted data");
  Eigen::VectorXd v = a.toVector();
  REQ(g, v.size() == n, "vector size");
  for (int i = 0; i < n; i++) REQ(g, v(i) == model[i], "vector entry");
  PointData<double> fromV(*d, v);
  for (int i = 0; i < n; i++) REQ(g, fromV[d->point(i)] == model[i], "from vector");
  // containers may outlive the cloud
  bool first = g.coin();
  if (first)
    d.reset();
  else
    c.reset();
  b = PointData<double>();
  if (n > 2) g.nontrivial();
  if (g.coin()) c.reset();
}

static void nearest(G& g) {
  Cl c = genCloud(g, 1, 60, true);
  size_t n = c.P.size();
  NearestNeighborFinder f(c.P);
  auto check = [&](Vector3 q, std::vector<size_t> got, size_t k, size_t skip, const char* what) {
    REQ(g, got.size() == k, what << ": " << got.size() << " results for k=" << k);
    std::set<size_t> s(got.begin(), got.end());
    REQ(g, s.size() == k, what << ": repeated results");
    std::vector<double> all;
    for (size_t i = 0; i < n; i++)
      if (i != skip) all.push_back((c.P[i] - q).norm2());
    std::sort(all.begin(), all.end());
    for (size_t i = 0; i < k; i++) {
      REQ(g, got[i] < n && got[i] != skip, what << ": result " << got[i]);
      REQ_NEAR(g, (c.P[got[i]] - q).norm2(), all[i], 1e-12 * (all[i] + q.norm2()), what << ": result " << i << " of " << k);
    }
  };
  for (int r = 0; r < 4; r++) {
    Vector3 q = g.coin() ? c.P[g.below(n)] : Vector3{g.jitter(6), g.jitter(6), g.jitter(6)} * c.scale;
    size_t k = g.range(1, (int)n);
    check(q, f.kNearest(q, k), k, INVALID_IND, "kNearest");
    REQ_THROWS(g, f.kNearest(q, n + 1 + g.below(3)), "more neighbours than points");
    size_t src = g.below(n);
    if (n > 1) {
      size_t m = g.range(1, (int)n - 1);
      check(c.P[src], f.kNearestNeighbors(src, m), m, src, "kNearestNeighbors");
    }
    REQ_THROWS(g, f.kNearestNeighbors(src, n + g.below(3)), "more neighbours than other points");
    double rad = g.real(0, 8) * c.scale;
    std::vector<size_t> got = f.radiusSearch(q, rad);
    std::set<size_t> s(got.begin(), got.end());
    REQ(g, s.size() == got.size(), "radiusSearch: repeated results");
    for (size_t i = 0; i < n; i++) {
      double d = (c.P[i] - q).norm();
      if (d < rad * (1 - 1e-9)) REQ(g, s.count(i), "radiusSearch misses a point at distance " << d << " < " << rad);
      if (d > rad * (1 + 1e-9)) REQ(g, !s.count(i), "radiusSearch returns a point at distance " << d << " > " << rad);
    }
  }
}

// ---------------------------------------------------------------- C24 geometry
struct PG {
  std::unique_ptr<PointCloud> cloud;
  std::unique_ptr<PointPositionGeometry> geom;
  Cl in;
  std::vector<Vector3> N; // given normals
  std::vector<std::array<Vector3, 3>> F;
  int kind = 0; // 0: positions, 1: normals, 2: frames
};
static Vector3 randomUnit(G& g) {
  Vector3 v{g.jitter(1), g.jitter(1), g.jitter(1)};
  if (v.norm() < .05) return Vector3{0, 0, 1};
  return v.normalize();
}
// tilt: given normals are the true ones or random
static void makePG(G& g, PG& o, int lo, int hi, bool degenerate, int kMin = 3) {
  o.in = genCloud(g, lo, hi, degenerate);
  size_t n = o.in.P.size();
  o.cloud.reset(new PointCloud(n));
  PointData<Vector3> pos = dataOf(*o.cloud, o.in.P);
  o.kind = g.weighted({4, 2, 2});
  if (o.kind == 0)
    o.geom.reset(new PointPositionGeometry(*o.cloud, pos));
  else {
    PointData<std::array<Vector3, 3>> fr(*o.cloud);
    PointData<Vector3> nn(*o.cloud);
    Vector3 up = Vector3{0, 0, 1};
    if (o.in.planar && n > 2) {
      Vector3 c = cross(o.in.P[1] - o.in.P[0], o.in.P[2] - o.in.P[0]);
      if (c.norm() < 1e-6 * o.in.scale * o.in.scale) g.discard();
      up = c.normalize();
    }
    bool rnd = g.chance(.3), flips = g.coin();
    g.note(rnd ? "random" : "true", " normals", flips ? " flipped at random" : "");
    if (flips) g.label("flipped normals");
    for (size_t i = 0; i < n; i++) {
      Vector3 N = rnd ? randomUnit(g) : o.in.planar ? up : o.in.P[i].norm() > .1 * o.in.scale ? o.in.P[i].normalize() : up;
      if (flips && g.coin()) N = -N;
      o.N.push_back(N);
      nn[i] = N;
      auto b = N.buildTangentBasis();
      double th = g.jitter(M_PI);
      Vector3 X = b[0] * std::cos(th) + b[1] * std::sin(th), Y = cross(N, X);
      fr[i] = {X, Y, N};
      o.F.push_back(fr[i]);
    }
    if (o.kind == 1)
      o.geom.reset(new PointPositionNormalGeometry(*o.cloud, pos, nn));
    else
      o.geom.reset(new PointPositionFrameGeometry(*o.cloud, pos, fr));
  }
  int k = g.range(kMin, std::min<int>(15, (int)n - 1));
  if (g.chance(.1)) k = (int)n - 1;
  o.geom->kNeighborSize = k;
  g.note("k=", k);
}

static Eigen::Vector3d ev(Vector3 v) { return Eigen::Vector3d(v.x, v.y, v.z); }
// coordinates of the 3D vector in the basis
static Vector2 in2(const std::array<Vector3, 2>& b, Vector3 v) { return Vector2{dot(b[0], v), dot(b[1], v)}; }
static Vector3 out3(const std::array<Vector3, 2>& b, Vector2 v) { return b[0] * v.x + b[1] * v.y; }
// the minimal rotation taking unit vector a to unit vector b, applied to v
static Vector3 minimalRotation(Vector3 a, Vector3 b, Vector3 v) {
  Vector3 c = cross(a, b);
  double d = dot(a, b);
  return v * d + cross(c, v) + c * (dot(c, v) / (1 + d));
}

static void checkPointwise(G& g, PG& o) {
  PointPositionGeometry& q = *o.geom;
  double sc = 0;
  for (auto& a : o.in.P)
    for (auto& b : o.in.P) sc = std::max(sc, (a - b).norm());
  double mag = sc;
  for (auto& a : o.in.P) mag = std::max(mag, a.norm());
  q.requirePointIndices();
  q.requireNeighbors();
  q.requireNormals();
  q.requireTangentBasis();
  q.requireTangentCoordinates();
  q.requireTangentTransport();
  q.requireGradient();
  size_t n = o.in.P.size();
  MD lap;
  Eigen::MatrixXcd grad(q.gradient);
  REQ(g, grad.rows() == (long)n && grad.cols() == (long)n, "size of the gradient");
  for (Point p : o.cloud->points()) {
    size_t i = p.getIndex();
    REQ(g, q.pointIndices[p] == i, "point index");
    const std::vector<Point>& nb = q.neighbors->neighbors[p];
    REQ(g, nb.size() == q.kNeighborSize, "number of neighbours " << nb.size());
    std::set<size_t> seen;
    std::vector<double> all;
    for (size_t j = 0; j < n; j++)
      if (j != i) all.push_back((o.in.P[j] - o.in.P[i]).norm());
    std::sort(all.begin(), all.end());
    for (size_t j = 0; j < nb.size(); j++) {
      REQ(g, nb[j] != p && seen.insert(nb[j].getIndex()).second, "neighbours of " << i << " repeat or contain it");
      REQ_NEAR(g, (o.in.P[nb[j].getIndex()] - o.in.P[i]).norm(), all[j], 1e-7 * mag, "distance of neighbour " << j << " of " << i);
    }
    // normal
    Vector3 N = q.normals[p];
    REQ_NEAR(g, N.norm(), 1, 1e-9, "norm of the normal of " << i);
    if (o.kind == 0) {
      Eigen::Matrix3d S = Eigen::Matrix3d::Zero();
      for (Point b : nb) {
        Eigen::Vector3d d = ev(o.in.P[b.getIndex()] - o.in.P[i]);
        S += d * d.transpose();
      }
      Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(S);
      double res = ev(N).dot(S * ev(N)), big = es.eigenvalues()(2);
      REQ_NEAR(g, res, es.eigenvalues()(0), 1e-10 * big + 1e-300, "the normal of " << i << " is not the direction of least variation");
    } else
      REQ(g, N == o.N[i], "the normal given for " << i << " was changed");
    std::array<Vector3, 2> B = q.tangentBasis[p];
    if (o.kind == 2)
      REQ(g, B[0] == o.F[i][0] && B[1] == o.F[i][1], "the basis given for " << i << " was changed");
    REQ_NEAR(g, B[0].norm(), 1, 1e-9, "basis of " << i);
    REQ_NEAR(g, dot(B[0], B[1]), 0, 1e-9, "basis of " << i);
    REQ((g), (cross(B[0], B[1]) - N).norm() < 1e-8, "the basis of " << i << " is not right-handed about the normal");
    REQ(g, q.tangentCoordinates[p].size() == nb.size(), "number of tangent coordinates");
    REQ(g, q.tangentTransport[p].size() == nb.size(), "number of rotations");
    for (size_t j = 0; j < nb.size(); j++) {
      Vector3 d = o.in.P[nb[j].getIndex()] - o.in.P[i];
      Vector2 t = q.tangentCoordinates[p][j], want = in2(B, d);
      REQ(g, (t - want).norm() <= 1e-9 * mag, "tangent coordinates of neighbour " << j << " of " << i << ": " << t << " for " << want);
      Vector2 r = q.tangentTransport[p][j];
      Vector3 M = q.normals[nb[j]];
      REQ_NEAR(g, r.norm(), 1, 1e-5, "rotation to neighbour " << j << " of " << i);
      if (dot(N, M) > -.999) {
        Vector2 v{.3, .8};
        Vector2 expect = in2(q.tangentBasis[nb[j]], minimalRotation(N, M, out3(B, v)));
        REQ(g, (r * v - expect).norm() <= 1e-5, "transport to neighbour " << j << " of " << i << ": " << (r * v) << " for " << expect);
      }
    }
    // least-squares gradient
    Eigen::MatrixXd A(nb.size(), 2);
    for (size_t j = 0; j < nb.size(); j++) A(j, 0) = q.tangentCoordinates[p][j].x, A(j, 1) = q.tangentCoordinates[p][j].y;
    Eigen::JacobiSVD<MD> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
    double s0 = svd.singularValues()(0), s1 = nb.size() < 2 ? 0. : svd.singularValues()(1);
    if (s1 > 1e-3 * s0 && s0 > 0) {
      MD pinv = svd.matrixV() * svd.singularValues().cwiseInverse().asDiagonal() * svd.matrixU().transpose();
      std::complex<double> diag = 0;
      std::vector<bool> used(n, false);
      double tol = 1e-8 / s1;
      for (size_t j = 0; j < nb.size(); j++) {
        std::complex<double> w(pinv(0, j), pinv(1, j));
        diag -= w;
        used[nb[j].getIndex()] = true;
        REQ(g, std::abs(grad(i, nb[j].getIndex()) - w) <= tol, "gradient weight of neighbour " << j << " of " << i);
      }
      REQ(g, std::abs(grad(i, i) - diag) <= tol * nb.size(), "gradient weight of the point " << i << " itself");
      for (size_t j = 0; j < n; j++)
        if (j != i && !used[j]) REQ(g, grad(i, j) == 0., "gradient at " << i << " uses " << j);
      g.label("gradient");
    }
  }
}
static void pointwise(G& g) {
  PG o;
  makePG(g, o, 5, 40, true, g.chance(.1) ? 1 : 3);
  checkPointwise(g, o);
}

// ---------------------------------------------------------------- C24 local triangulations
static LD incircle0(Vector2 a, Vector2 b, Vector2 q) { // relative: > 0 iff q is inside the circle through 0, a, b (ccw)
  // 0, a, b, q lifted
  LD ax = a.x, ay = a.y, bx = b.x, by = b.y, qx = q.x, qy = q.y;
  LD A = ax * ax + ay * ay, B = bx * bx + by * by, Q = qx * qx + qy * qy;
  LD det = ax * (by * Q - B * qy) - ay * (bx * Q - B * qx) + A * (bx * qy - by * qx);
  LD s = sqrtl(A) * sqrtl(B) * sqrtl(Q) * (sqrtl(A) + sqrtl(B) + sqrtl(Q));
  return -det / s;
}
static void localTri(G& g) {
  PG o;
  makePG(g, o, 5, 40, true);
  PointPositionGeometry& q = *o.geom;
  bool heuristic = o.in.degenerate || g.coin();
  auto T = buildLocalTriangulations(*o.cloud, q, heuristic);
  q.requireNeighbors();
  q.requireTangentCoordinates();
  auto inds = handleToInds(*o.cloud, T);
  auto flat = handleToFlatInds(*o.cloud, T);
  size_t at = 0;
  for (Point p : o.cloud->points()) {
    const std::vector<Point>& nb = q.neighbors->neighbors[p];
    std::map<size_t, Vector2> co;
    double far = 0, near = 1e300;
    for (size_t j = 0; j < nb.size(); j++) {
      co[nb[j].getIndex()] = q.tangentCoordinates[p][j];
      far = std::max(far, q.tangentCoordinates[p][j].norm());
      near = std::min(near, q.tangentCoordinates[p][j].norm());
    }
    std::set<std::pair<size_t, size_t>> got;
    REQ(g, inds[p].size() == T[p].size(), "index triangles of " << p);
    for (size_t t = 0; t < T[p].size(); t++) {
      auto& tri = T[p][t];
      REQ(g, tri[0] == p && co.count(tri[1].getIndex()) && co.count(tri[2].getIndex()) && tri[1] != tri[2],
          "triangle " << t << " of " << p << " is not made of it and two neighbours");
      REQ(g, at < flat.size() && flat[at].size() == 3, "flat list too short");
      for (int j = 0; j < 3; j++) {
        REQ(g, inds[p][t][j] == tri[j].getIndex(), "index triangle");
        REQ(g, flat[at][j] == tri[j].getIndex(), "flat triangle");
      }
      at++;
      REQ(g, got.insert({tri[1].getIndex(), tri[2].getIndex()}).second, "repeated triangle of " << p);
    }
    // every neighbour starts and ends at most one triangle
    std::set<size_t> s, e;
    for (auto& x : got) REQ(g, s.insert(x.first).second && e.insert(x.second).second, "overlapping triangles at " << p);
    if (!(near > 1e-5 * far)) continue; // perturbed by the heuristic
    double total = 0;
    for (auto& x : got) {
      Vector2 a = co[x.first], b = co[x.second];
      double c = cross(a, b);
      REQ(g, c >= -1e-12 * a.norm() * b.norm(), "clockwise triangle at " << p);
      double ang = std::atan2(c, dot(a, b));
      total += ang < 0 ? 0 : ang;
    }
    REQ(g, total <= 2 * M_PI + 1e-6, "the triangles at " << p << " overlap: total angle " << total);
    // exact reference
    const LD eps = 2e-7, del = 1e-7;
    bool generic = true;
    std::set<std::pair<size_t, size_t>> want, forbidden;
    for (auto& a : co)
      for (auto& b : co) {
        if (a.first == b.first) continue;
        LD s = cross(a.second, b.second) / ((LD)a.second.norm() * b.second.norm());
        if (fabsl(s) < eps) { // opposite directions bound the fan
          generic &= dot(a.second, b.second) < 0;
          continue;
        }
        if (s < 0) continue;
        bool ok = true, bad = false;
        for (auto& c : co)
          if (c.first != a.first && c.first != b.first) {
            LD d = incircle0(a.second, b.second, c.second);
            if (d > del) bad = true;
            if (d > -del) ok = false;
          }
        if (ok) want.insert({a.first, b.first});
        if (bad) forbidden.insert({a.first, b.first});
        if (!ok && !bad) generic = false;
      }
    if (generic) {
      for (auto& w : want)
        REQ(g, got.count(w), "the triangle of " << p << " with " << w.first << ", " << w.second << " is Delaunay but missing");
      for (auto& w : got) REQ(g, !forbidden.count(w), "the triangle of " << p << " with " << w.first << ", " << w.second << " is not Delaunay");
      g.label("compared exactly");
    }
  }
  REQ(g, at == flat.size(), "flat list too long");
}

// ---------------------------------------------------------------- C24 Laplacians
static void laplacians(G& g) {
  PG o;
  makePG(g, o, 6, 40, g.chance(.3), 4);
  PointPositionGeometry& q = *o.geom;
  size_t n = o.in.P.size();
  q.requireNeighbors();
  q.requireTangentCoordinates();
  auto T = buildLocalTriangulations(*o.cloud, q, true);
  std::vector<bool> used(n, false);
  Polys polys;
  for (Point p : o.cloud->points())
    for (auto& t : T[p]) {
      polys.push_back({t[0].getIndex(), t[1].getIndex(), t[2].getIndex()});
      for (auto& x : t) used[x.getIndex()] = true;
    }
  for (bool u : used)
    if (!u) g.discard(); // points in no triangle are not supported by the meshes
  q.requireTuftedTriangulation();
  SurfaceMesh& m = *q.tuftedMesh;
  EdgeLengthGeometry& eg = *q.tuftedGeom;
  REQ(g, m.nVertices() == n, "vertices of the tufted mesh");
  REQ(g, m.nFaces() == 2 * polys.size(), "faces of the tufted mesh: " << m.nFaces() << " for " << polys.size() << " triangles");
  m.validateConnectivity();
  for (Edge e : m.edges()) {
    size_t k = 0;
    for (Halfedge h : e.adjacentHalfedges()) k++, (void)h;
    REQ(g, k == 2 && !e.isBoundary(), "edge " << e << " of the tufted mesh has " << k << " faces");
  }
  for (Face f : m.faces()) REQ(g, f.degree() == 3, "face degree");
  eg.requireEdgeLengths();
  TriOracle to(m, [&](Edge e) { return (LD)eg.edgeLengths[e]; });
  // area: flips keep it.  Lengths are those of the triangles after the common offset
  std::map<std::pair<size_t, size_t>, LD> len;
  LD mean = 0;
  for (auto& t : polys)
    for (int i = 0; i < 3; i++) {
      size_t a = std::min(t[i], t[(i + 1) % 3]), b = std::max(t[i], t[(i + 1) % 3]);
      len[{a, b}] = (o.in.P[a] - o.in.P[b]).norm();
    }
  for (auto& l : len) mean += l.second / len.size();
  auto L = [&](const std::vector<size_t>& t, int i) { return len[{std::min(t[i % 3], t[(i + 1) % 3]), std::max(t[i % 3], t[(i + 1) % 3])}]; };
  LD off = 0, smallest = 1e30;
  for (auto& t : polys)
    for (int i = 0; i < 3; i++) off = std::max(off, L(t, i) - L(t, i + 1) - L(t, i + 2) + 1e-5L * mean);
  LD area = 0;
  for (auto& t : polys) {
    LD a = L(t, 0) + off, b = L(t, 1) + off, c = L(t, 2) + off, s = (a + b + c) / 2;
    LD ar = sqrtl(std::max(0.L, s * (s - a) * (s - b) * (s - c)));
    area += 2 * ar;
    smallest = std::min(smallest, ar);
  }
  LD got = 0;
  bool nice = true;
  LD minArea = 1e30;
  for (Face f : m.faces()) {
    got += to.A(f);
    minArea = std::min(minArea, to.A(f));
    for (Halfedge h : f.adjacentHalfedges())
      if (to.ang[h.getIndex()] < .002 || to.ang[h.getIndex()] > 3.139) nice = false;
  }
  REQ_NEAR(g, (double)got, (double)area, (double)(area * 1e-5 + n * mean * mean * 1e-6), "area of the tufted mesh");
  if (nice) {
    g.label("well-shaped");
    // Delaunay
    for (Edge e : m.edges()) {
      LD w = 0;
      for (Halfedge h : e.adjacentHalfedges()) w += to.cot[h.getIndex()];
      REQ(g, w > -1e-4, "edge " << e << " of the tufted mesh is not Delaunay: " << (double)w);
    }
    q.requireLaplacian();
    MD lap(q.laplacian), ref = MD::Zero(n, n);
    for (Face f : m.faces())
      for (Halfedge h : f.adjacentHalfedges()) {
        size_t a = h.tailVertex().getIndex(), b = h.tipVertex().getIndex();
        double w = (double)to.cot[h.getIndex()] / 2;
        ref(a, a) += w, ref(b, b) += w, ref(a, b) -= w, ref(b, a) -= w;
      }
    double big = ref.cwiseAbs().maxCoeff();
    REQ(g, lap.rows() == (long)n && lap.cols() == (long)n, "size of the Laplacian");
    double dd = (lap - ref).cwiseAbs().maxCoeff();
    REQ(g, dd <= 1e-6 * big, "the Laplacian differs from that of the tufted mesh by " << dd);
    REQ(g, (lap - lap.transpose()).cwiseAbs().maxCoeff() <= 1e-8 * big, "the Laplacian is not symmetric");
    REQ(g, (lap * VD::Ones(n)).cwiseAbs().maxCoeff() <= 1e-8 * big * n, "row sums of the Laplacian");
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++)
        if (i != j) REQ(g, lap(i, j) <= 1e-4, "positive weight between " << i << " and " << j << ": " << lap(i, j));
    // connection Laplacian
    q.requireConnectionLaplacian();
    q.requireNormals();
    q.requireTangentBasis();
    MD K(q.connectionLaplacian);
    REQ(g, K.rows() == 2 * (long)n && K.cols() == 2 * (long)n, "size of the connection Laplacian");
    bool all = true;
    for (size_t i = 0; i < n; i++) {
      double diag = 0;
      for (size_t j = 0; j < n; j++) {
        if (j == i) continue;
        diag -= lap(i, j);
        Vector3 Ni = q.normals[i], Nj = q.normals[j];
        double d = dot(Ni, Nj);
        if (std::fabs(d) < 1e-6) {
          all = false;
          continue;
        }
        Vector3 target = d < 0 ? -Ni : Ni; // as oriented like the other one
        for (int c = 0; c < 2; c++) {
          Vector3 v = minimalRotation(Nj, target, q.tangentBasis[j][c]);
          Vector2 w = in2(q.tangentBasis[i], v) * lap(i, j);
          double tol = 1e-5 * std::fabs(lap(i, j)) + 1e-9 * big;
          REQ(g, std::fabs(K(2 * i, 2 * j + c) - w.x) <= tol && std::fabs(K(2 * i + 1, 2 * j + c) - w.y) <= tol,
              "connection Laplacian block " << i << "," << j << " column " << c << ": " << K(2 * i, 2 * j + c) << "," << K(2 * i + 1, 2 * j + c)
                                            << " for " << w << (d < 0 ? " (opposite normals)" : ""));
        }
        if (d < 0 && std::fabs(lap(i, j)) > 1e-6 * big) g.label("reflected block");
      }
      for (int a = 0; a < 2; a++)
        for (int b = 0; b < 2; b++)
          REQ_NEAR(g, K(2 * i + a, 2 * i + b), a == b ? diag : 0., 1e-7 * big * n, "diagonal block " << i << " of the connection Laplacian");
    }
    if (all) {
      REQ(g, (K - K.transpose()).cwiseAbs().maxCoeff() <= 1e-4 * big, "the connection Laplacian is not symmetric");
      if (o.in.planar && (o.kind == 0 || std::fabs(std::fabs(dot(o.N[0], o.N[1])) - 1) < 1e-9)) {
        bool flat = true;
        for (size_t i = 1; i < n; i++) flat &= std::fabs(std::fabs(dot(q.normals[0], q.normals[i])) - 1) < 1e-9;
        if (flat) {
          Vector3 v = q.tangentBasis[0][0] * .6 + q.tangentBasis[0][1] * .8;
          VD x(2 * n);
          for (size_t i = 0; i < n; i++) {
            Vector2 w = in2(q.tangentBasis[i], v);
            x(2 * i) = w.x, x(2 * i + 1) = w.y;
          }
          double r = (K * x).cwiseAbs().maxCoeff();
          REQ(g, r <= 1e-4 * big * n, "a constant vector field on a plane is not parallel: " << r);
          g.label("planar kernel");
        }
      }
    }
  }
}

// ---------------------------------------------------------------- C24 caching
static void protocol(G& g) {
  PG o;
  makePG(g, o, 6, 20, false, 4);
  PointPositionGeometry& q = *o.geom;
  size_t n = o.in.P.size();
  std::vector<int> cnt(10, 0);
  auto req = [&](int i) {
    cnt[i]++;
    switch (i) {
    case 0: q.requirePointIndices(); break;
    case 1: q.requireNeighbors(); break;
    case 2: q.requireNormals(); break;
    case 3: q.requireTangentBasis(); break;
    case 4: q.requireTangentCoordinates(); break;
    case 5: q.requireTangentTransport(); break;
    case 6: q.requireTuftedTriangulation(); break;
    case 7: q.requireLaplacian(); break;
    case 8: q.requireConnectionLaplacian(); break;
    default: q.requireGradient();
    }
  };
  auto unreq = [&](int i) {
    cnt[i]--;
    switch (i) {
    case 0: q.unrequirePointIndices(); break;
    case 1: q.unrequireNeighbors(); break;
    case 2: q.unrequireNormals(); break;
    case 3: q.unrequireTangentBasis(); break;
    case 4: q.unrequireTangentCoordinates(); break;
    case 5: q.unrequireTangentTransport(); break;
    case 6: q.unrequireTuftedTriangulation(); break;
    case 7: q.unrequireLaplacian(); break;
    case 8: q.unrequireConnectionLaplacian(); break;
    default: q.unrequireGradient();
    }
  };
  auto usable = [&](PointPositionGeometry& z) { // is every point in a triangle?
    auto T = buildLocalTriangulations(*o.cloud, z, true);
    std::vector<bool> used(n, false);
    for (Point p : o.cloud->points())
      for (auto& t : T[p])
        for (auto& x : t) used[x.getIndex()] = true;
    for (bool u : used)
      if (!u) return false;
    return true;
  };
  auto fresh = [&](PointCloud& cl) {
    std::unique_ptr<PointPositionGeometry> f;
    PointData<Vector3> pos(cl);
    PointData<Vector3> nn(cl);
    PointData<std::array<Vector3, 3>> fr(cl);
    for (size_t i = 0; i < n; i++) {
      pos[i] = q.positions[i];
      if (o.kind) nn[i] = o.N[i], fr[i] = o.F[i];
    }
    if (o.kind == 0)
      f.reset(new PointPositionGeometry(cl, pos));
    else if (o.kind == 1)
      f.reset(new PointPositionNormalGeometry(cl, pos, nn));
    else
      f.reset(new PointPositionFrameGeometry(cl, pos, fr));
    f->kNeighborSize = q.kNeighborSize;
    return f;
  };
  {
    auto f = fresh(*o.cloud);
    if (!usable(*f)) g.discard();
  }
  bool stale = false;
  int steps = g.range(3, 12);
  for (int s = 0; s < steps; s++) {
    int a = g.weighted({4, 2, 3, 1});
    if (stale) a = 3;
    if (a == 0) {
      int i = g.below(10);
      g.note("require ", i);
      req(i);
    } else if (a == 1) {
      std::vector<int> c;
      for (int i = 0; i < 10; i++)
        if (cnt[i]) c.push_back(i);
      if (c.size()) {
        int i = g.pick(c);
        g.note("unrequire ", i);
        unreq(i);
      }
    } else if (a == 2) {
      g.note("move");
      int k = g.range(1, (int)n);
      for (int i = 0; i < k; i++) {
        size_t j = g.below(n);
        q.positions[j] += Vector3{g.jitter(.3), g.jitter(.3), g.jitter(.3)} * o.in.scale;
      }
      if (g.chance(.3)) q.kNeighborSize = g.range(4, (int)n - 1);
      auto f = fresh(*o.cloud);
      if (!usable(*f)) g.discard();
      q.refreshQuantities();
      if (g.coin()) q.purgeQuantities();
      g.label("refresh");
    } else {
      g.note("purge");
      q.purgeQuantities();
    }
    // everything required is what a fresh geometry has
    std::unique_ptr<PointCloud> c2 = o.cloud->copy();
    auto f = fresh(*c2);
    if (cnt[0])
      for (size_t i = 0; i < n; i++) REQ(g, q.pointIndices[i] == i, "point indices");
    if (cnt[1]) {
      f->requireNeighbors();
      for (size_t i = 0; i < n; i++) {
        REQ(g, q.neighbors->neighbors[i].size() == q.kNeighborSize, "neighbours are stale");
        for (size_t j = 0; j < q.kNeighborSize; j++)
          REQ(g, q.neighbors->neighbors[i][j].getIndex() == f->neighbors->neighbors[i][j].getIndex(), "neighbours of " << i << " are stale");
      }
    }
    auto eqv = [&](Vector3 a, Vector3 b, const char* w) { REQ(g, (a - b).norm() <= 1e-9, w << " are stale: " << a << " for " << b); };
    if (cnt[2]) {
      f->requireNormals();
      for (size_t i = 0; i < n; i++) eqv(q.normals[i], f->normals[i], "normals");
    }
    if (cnt[3]) {
      f->requireTangentBasis();
      for (size_t i = 0; i < n; i++) eqv(q.tangentBasis[i][0], f->tangentBasis[i][0], "bases"), eqv(q.tangentBasis[i][1], f->tangentBasis[i][1], "bases");
    }
    for (int w : {4, 5})
      if (cnt[w]) {
        f->requireTangentCoordinates();
        f->requireTangentTransport();
        auto& A = w == 4 ? q.tangentCoordinates : q.tangentTransport;
        auto& B = w == 4 ? f->tangentCoordinates : f->tangentTransport;
        for (size_t i = 0; i < n; i++) {
          REQ(g, A[i].size() == B[i].size(), "tangent data " << w << " are stale");
          for (size_t j = 0; j < A[i].size(); j++)
            REQ(g, (A[i][j] - B[i][j]).norm() <= 1e-7 * (1 + o.in.scale), "tangent data " << w << " are stale");
        }
      }
    if (cnt[6]) {
      f->requireTuftedTriangulation();
      REQ(g, q.tuftedMesh && q.tuftedGeom, "no tufted mesh");
      REQ(g, q.tuftedMesh->nFaces() == f->tuftedMesh->nFaces(), "the tufted mesh is stale");
      q.tuftedGeom->requireFaceAreas();
      f->tuftedGeom->requireFaceAreas();
      double a = q.tuftedGeom->faceAreas.toVector().sum(), b = f->tuftedGeom->faceAreas.toVector().sum();
      REQ_NEAR(g, a, b, 1e-6 * b, "the tufted mesh is stale");
      q.tuftedGeom->unrequireFaceAreas();
    }
    auto cmp = [&](const MD& A, const MD& B, const char* w) {
      REQ(g, A.rows() == B.rows(), w << " is missing");
      double big = B.cwiseAbs().maxCoeff();
      REQ(g, (A - B).cwiseAbs().maxCoeff() <= 1e-6 * big, w << " is stale");
    };
    if (cnt[7]) f->requireLaplacian(), cmp(MD(q.laplacian), MD(f->laplacian), "the Laplacian");
    if (cnt[8]) f->requireConnectionLaplacian(), cmp(MD(q.connectionLaplacian), MD(f->connectionLaplacian), "the connection Laplacian");
    if (cnt[9]) {
      f->requireGradient();
      Eigen::MatrixXcd A(q.gradient), B(f->gradient);
      REQ(g, A.rows() == B.rows(), "the gradient is missing");
      REQ(g, (A - B).cwiseAbs().maxCoeff() <= 1e-6 * B.cwiseAbs().maxCoeff(), "the gradient is stale");
    }
  }
  // what is given stays
  if (o.kind) {
    q.purgeQuantities();
    q.requireNormals();
    for (size_t i = 0; i < n; i++) REQ(g, q.normals[i] == o.N[i], "given normals were purged");
    if (o.kind == 2) {
      q.requireTangentBasis();
      for (size_t i = 0; i < n; i++) REQ(g, q.tangentBasis[i][0] == o.F[i][0], "given frames were purged");
    }
  }
}

// ---------------------------------------------------------------- C24 files
static void files(G& g) {
  int n = g.range(0, 30);
  PointCloud c(n);
  PointPositionGeometry q(c);
  for (int i = 0; i < n; i++) {
    auto r = [&]() {
      switch (g.weighted({4, 1, 2})) {
      case 0: return g.jitter(3);
      case 1: return (double)g.range(-5, 5);
      default: return std::ldexp(g.jitter(1), g.range(-200, 200));
      }
    };
    q.positions[i] = Vector3{r(), r(), r()};
    g.note("p", i, "=", q.positions[i]);
  }
  if (n > 1) g.nontrivial();
  bool obj = g.coin();
  std::string type = obj ? "obj" : "ply";
  std::unique_ptr<PointCloud> d;
  std::unique_ptr<PointPositionGeometry> r;
  if (g.coin()) {
    std::stringstream s;
    writePointCloud(c, q, s, type);
    std::tie(d, r) = readPointCloud(s, type);
  } else {
    char t[] = "/tmp/gcpcXXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    struct Clean {
      std::string dir, file;
      ~Clean() {
        unlink(file.c_str());
        rmdir(dir.c_str());
      }
    } cl{t, ""};
    bool explicitType = g.coin();
    cl.file = cl.dir + "/c" + (explicitType ? ".dat" : g.coin() ? "." + type : obj ? ".OBJ" : ".PLY");
    writePointCloud(c, q, cl.file, explicitType ? type : "");
    std::tie(d, r) = readPointCloud(cl.file, explicitType ? type : "");
    g.label("file");
  }
  REQ(g, d->nPoints() == (size_t)n && &r->cloud == d.get(), "points read: " << d->nPoints());
  for (int i = 0; i < n; i++)
    for (int j = 0; j < 3; j++) {
      double a = q.positions[i][j], b = r->positions[i][j];
      REQ(g, a == b, type << ": coordinate " << j << " of point " << i << ": " << b << " for " << a);
    }
  std::stringstream s;
  REQ_THROWS(g, writePointCloud(c, q, s, "xyz"), "unknown type");
  REQ_THROWS(g, readPointCloud(s, "xyz"), "unknown type");
  REQ_THROWS(g, readPointCloud("/nonexistent/dir/a.obj"), "no such file");
  REQ_THROWS(g, readPointCloud("/nonexistent/dir/a"), "no type");
}

// ---------------------------------------------------------------- C24 sampling
static void sampling(G& g) {
  GenOpts o;
  o.maxFaces = 25;
  Geo w = g.chance(.3) ? genGeneralTriGeo(g, 10, .1, 2) : genTriGeo(g, o, true, .1, 2);
  SurfaceMesh& m = *w.mesh;
  VertexPositionGeometry& q = *w.vpg;
  size_t n = g.chance(.1) ? 0 : 3000;
  std::unique_ptr<PointCloud> c;
  PointData<Vector3> pos;
  PointData<SurfacePoint> src;
  std::tie(c, pos, src) = uniformlySamplePointsOnSurface(m, q, n);
  REQ(g, c->nPoints() == n, "number of samples " << c->nPoints());
  TriOracle to = oracleOf(m, w.pos);
  LD total = 0;
  for (Face f : m.faces()) total += to.A(f);
  std::vector<double> cnt(m.nFacesCapacity() + 1, 0);
  std::vector<Vector3> mean(m.nFacesCapacity() + 1, Vector3{0, 0, 0});
  double size = 0;
  for (Vertex v : m.vertices()) size = std::max(size, norm(w.pos[v]));
  double quad[4] = {0, 0, 0, 0};
  for (Point p : c->points()) {
    SurfacePoint s = src[p];
    REQ(g, s.type == SurfacePointType::Face && s.face.getMesh() == &m, "sample is not in a face");
    REQ(g, s.faceCoords.x >= 0 && s.faceCoords.y >= 0 && s.faceCoords.z >= 0, "coordinates " << s.faceCoords);
    REQ_NEAR(g, s.faceCoords.x + s.faceCoords.y + s.faceCoords.z, 1, 1e-9, "coordinates");
    Vector3 x{0, 0, 0};
    int i = 0;
    for (Vertex v : s.face.adjacentVertices()) x += w.pos[v] * s.faceCoords[i++];
    REQ(g, (x - pos[p]).norm() <= 1e-9 * size, "position " << pos[p] << " of a sample at " << x);
    cnt[s.face.getIndex()]++;
    mean[s.face.getIndex()] += s.faceCoords;
    // the four triangles of the midpoint subdivision are equally likely
    int k = s.faceCoords.x > .5 ? 0 : s.faceCoords.y > .5 ? 1 : s.faceCoords.z > .5 ? 2 : 3;
    quad[k]++;
  }
  if (n) {
    g.nontrivial();
    for (Face f : m.faces()) {
      double p = (double)(to.A(f) / total), e = n * p, sd = std::sqrt(n * p * (1 - p)) + 1;
      REQ_NEAR(g, cnt[f.getIndex()], e, 8 * sd + 3, "samples in a face with a fraction " << p << " of the area");
    }
    for (int k = 0; k < 4; k++) REQ_NEAR(g, quad[k], n / 4., 8 * std::sqrt(n * 3. / 16), "samples in quarter " << k << " of their faces");
  }
}

// ---------------------------------------------------------------- C25
struct HS {
  PG o;
  std::unique_ptr<PointCloudHeatSolver> solver;
  double tCoef = 1, t = 0, h = 0;
  MD M, L, K;
  double sizeL = 0;
};
static void makeHS(G& g, HS& s, bool flat = false) {
  makePG(g, s.o, 10, 40, false, 5);
  if (flat && !s.o.in.planar) g.discard();
  PointPositionGeometry& q = *s.o.geom;
  size_t n = s.o.in.P.size();
  auto T = buildLocalTriangulations(*s.o.cloud, q, true);
  std::vector<bool> used(n, false);
  for (Point p : s.o.cloud->points())
    for (auto& t : T[p])
      for (auto& x : t) used[x.getIndex()] = true;
  for (bool u : used)
    if (!u) g.discard();
  s.tCoef = g.coin() ? 1 : g.real(.5, 10);
  s.solver.reset(new PointCloudHeatSolver(*s.o.cloud, q, s.tCoef));
  g.note("t=", s.tCoef);
  SurfaceMesh& m = *q.tuftedMesh;
  q.tuftedGeom->requireEdgeLengths();
  TriOracle to(m, [&](Edge e) { return (LD)q.tuftedGeom->edgeLengths[e]; });
  for (Edge e : m.edges()) s.h += (double)to.L(e) / m.nEdges();
  s.t = s.tCoef * s.h * s.h;
  s.M = s.L = MD::Zero(n, n);
  for (Face f : m.faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      if (to.ang[h.getIndex()] < .01) g.discard();
      size_t a = h.tailVertex().getIndex(), b = h.tipVertex().getIndex();
      double w = (double)to.cot[h.getIndex()] / 2;
      s.L(a, a) += w, s.L(b, b) += w, s.L(a, b) -= w, s.L(b, a) -= w;
      s.M(a, a) += (double)to.A(f) / 3;
    }
  s.sizeL = s.L.cwiseAbs().maxCoeff();
  // connected?
  std::vector<int> seen(n, 0);
  std::vector<size_t> st{0};
  seen[0] = 1;
  size_t cnt = 1;
  while (st.size()) {
    size_t i = st.back();
    st.pop_back();
    for (size_t j = 0; j < n; j++)
      if (!seen[j] && j != i && std::fabs(s.L(i, j)) > 1e-7 * s.sizeL) seen[j] = 1, cnt++, st.push_back(j);
  }
  if (cnt != n) g.discard();
}
static void connection(G& g, HS& s) {
  PointPositionGeometry& q = *s.o.geom;
  size_t n = s.o.in.P.size();
  q.requireNormals();
  q.requireTangentBasis();
  s.K = MD::Zero(2 * n, 2 * n);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      if (i == j || s.L(i, j) == 0) continue;
      double d = dot(q.normals[i], q.normals[j]);
      if (std::fabs(d) < 1e-5) g.discard();
      Vector3 target = d < 0 ? -q.normals[i] : q.normals[i];
      for (int c = 0; c < 2; c++) {
        Vector2 w = in2(q.tangentBasis[i], minimalRotation(q.normals[j], target, q.tangentBasis[j][c])) * s.L(i, j);
        s.K(2 * i, 2 * j + c) += w.x, s.K(2 * i + 1, 2 * j + c) += w.y;
        s.K(2 * i + c, 2 * i + c) -= s.L(i, j);
      }
    }
}
static MD twice(const MD& M) {
  MD r = MD::Zero(2 * M.rows(), 2 * M.cols());
  for (int i = 0; i < M.rows(); i++)
    for (int j = 0; j < M.cols(); j++) r(2 * i, 2 * j) = r(2 * i + 1, 2 * j + 1) = M(i, j);
  return r;
}
static std::vector<size_t> distinct(G& g, size_t n, int lo, int hi) {
  std::vector<size_t> p = g.perm(n);
  p.resize(std::min<size_t>(n, g.range(lo, hi)));
  return p;
}
static VD poisson(const MD& L, VD b, double& lam) {
  Eigen::SelfAdjointEigenSolver<MD> es(L);
  const VD& ev = es.eigenvalues();
  double big = ev.cwiseAbs().maxCoeff();
  VD x = VD::Zero(b.size());
  lam = big;
  for (int i = 0; i < b.size(); i++) {
    if (std::fabs(ev(i)) < 1e-9 * big) continue;
    lam = std::min(lam, std::fabs(ev(i)));
    x += es.eigenvectors().col(i) * (es.eigenvectors().col(i).dot(b) / ev(i));
  }
  return x;
}

// distance of the heat method on the tufted mesh
static VD refDistance(G& g, HS& s, const std::vector<size_t>& src, bool& reliable, double& tol) {
  PointPositionGeometry& q = *s.o.geom;
  SurfaceMesh& m = *q.tuftedMesh;
  size_t n = s.o.in.P.size();
  TriOracle to(m, [&](Edge e) { return (LD)q.tuftedGeom->edgeLengths[e]; });
  VD rhs = VD::Zero(n);
  for (size_t i : src) rhs(i) += 1;
  VD u = (s.M + s.t * s.L).ldlt().solve(rhs);
  reliable = u.cwiseAbs().minCoeff() > 1e-9 * u.cwiseAbs().maxCoeff();
  VD div = VD::Zero(n);
  for (Face f : m.faces()) {
    Halfedge h[3];
    LC c[3];
    corners(to, f, h, c);
    LC gr = 0;
    LD sz = 0;
    for (int i = 0; i < 3; i++) {
      LC hat = LC(0, 1) * (c[(i + 2) % 3] - c[(i + 1) % 3]) / (2 * to.A(f));
      gr += hat * (LD)u(h[i].vertex().getIndex());
      sz += std::abs(hat) * fabs(u(h[i].vertex().getIndex()));
    }
    if (std::abs(gr) < 1e-6 * sz) {
      reliable = false;
      continue;
    }
    LC X = -gr / std::abs(gr);
    for (int i = 0; i < 3; i++) {
      LC hat = LC(0, 1) * (c[(i + 2) % 3] - c[(i + 1) % 3]) / 2.0L;
      div(h[i].vertex().getIndex()) += (double)(std::conj(X) * hat).real();
    }
  }
  double lam;
  VD d = poisson(s.L, div, lam);
  double sd = 0;
  for (size_t i : src) sd += d(i);
  d.array() -= sd / src.size();
  tol = (d.maxCoeff() - d.minCoeff() + s.h) * (4e-6 * n / lam + 1e-5);
  return d;
}
static void distances(G& g) {
  HS s;
  makeHS(g, s);
  size_t n = s.o.in.P.size();
  int rounds = g.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    std::vector<size_t> src = distinct(g, n, 1, 3);
    std::vector<Point> ps;
    for (size_t i : src) ps.push_back(s.o.cloud->point(i)), g.note("source ", i);
    PointData<double> D = src.size() == 1 && g.coin() ? s.solver->computeDistance(ps[0]) : s.solver->computeDistance(ps);
    double sd = 0, rg = 0;
    for (size_t i = 0; i < n; i++) {
      REQ(g, std::isfinite(D[i]), "distance of " << i);
      rg = std::max(rg, std::fabs(D[i]));
    }
    for (size_t i : src) sd += D[i];
    REQ_NEAR(g, sd / src.size(), 0, 1e-6 * (rg + s.h), "mean distance at the sources");
    bool rel;
    double tol;
    VD d = refDistance(g, s, src, rel, tol);
    if (rel) {
      g.label("compared");
      for (size_t i = 0; i < n; i++) REQ_NEAR(g, D[i], d(i), tol, "distance of " << i);
    }
  }
}
static void extension(G& g) {
  HS s;
  makeHS(g, s);
  size_t n = s.o.in.P.size();
  Eigen::LDLT<MD> H(s.M + s.t * s.L);
  int rounds = g.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    std::vector<size_t> src = distinct(g, n, 1, 4);
    std::vector<std::tuple<Point, double>> in;
    VD a = VD::Zero(n), b = VD::Zero(n);
    double lo = 1e300, hi = -1e300;
    for (size_t i : src) {
      double v = g.jitter(10);
      in.push_back(std::make_tuple(s.o.cloud->point(i), v));
      a(i) = v, b(i) = 1;
      lo = std::min(lo, v), hi = std::max(hi, v);
      g.note("source ", i, "=", v);
    }
    PointData<double> X = s.solver->extendScalars(in);
    VD xa = H.solve(a), xb = H.solve(b);
    double top = xb.cwiseAbs().maxCoeff();
    for (size_t i = 0; i < n; i++)
      if (xb(i) > 1e-7 * top) {
        REQ_NEAR(g, X[i], xa(i) / xb(i), 1e-5 * (1 + std::fabs(lo) + std::fabs(hi)), "extended value at " << i);
        REQ(g, X[i] >= lo - 1e-4 * (1 + hi - lo) && X[i] <= hi + 1e-4 * (1 + hi - lo), "extended value " << X[i] << " at " << i << " outside [" << lo << "," << hi << "]");
      }
    REQ_THROWS(g, s.solver->extendScalars({}), "no sources");
  }
}
static void transport(G& g) {
  HS s;
  makeHS(g, s);
  connection(g, s);
  PointPositionGeometry& q = *s.o.geom;
  size_t n = s.o.in.P.size();
  Eigen::LDLT<MD> H(s.M + s.t * s.L);
  Eigen::PartialPivLU<MD> V(twice(s.M) + s.t * s.K);
  bool plane = s.o.in.planar;
  for (size_t i = 0; i < n; i++) plane &= std::fabs(dot(q.normals[0], q.normals[i])) > 1 - 1e-9;
  int rounds = g.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    std::vector<size_t> src = distinct(g, n, 1, 4);
    bool same = g.chance(.4);
    std::vector<std::tuple<Point, Vector2>> in;
    VD x = VD::Zero(2 * n), a = VD::Zero(n), b = VD::Zero(n);
    double len = g.real(.1, 4);
    for (size_t i : src) {
      Vector2 v = Vector2::fromAngle(g.jitter(M_PI)) * (same ? len : g.real(.1, 4));
      in.push_back(std::make_tuple(s.o.cloud->point(i), v));
      x(2 * i) = v.x, x(2 * i + 1) = v.y, a(i) = v.norm(), b(i) = 1;
      g.note("source ", i, "=", v);
    }
    PointData<Vector2> X =
        src.size() == 1 && g.coin() ? s.solver->transportTangentVector(std::get<0>(in[0]), std::get<1>(in[0])) : s.solver->transportTangentVectors(in);
    VD y = V.solve(x), ya = H.solve(a), yb = H.solve(b);
    double top = yb.cwiseAbs().maxCoeff(), topy = y.cwiseAbs().maxCoeff();
    for (size_t i = 0; i < n; i++) {
      Vector2 w{y(2 * i), y(2 * i + 1)};
      REQ(g, isfinite(X[i]), "vector at " << i);
      if (yb(i) < 1e-7 * top || w.norm() < 1e-6 * topy) continue;
      Vector2 want = w.normalize() * (ya(i) / yb(i));
      REQ(g, (X[i] - want).norm() <= 2e-4 * want.norm(), "vector at " << i << ": " << X[i] << " for " << want);
      if (plane && src.size() == 1) {
        Vector3 v3 = out3(q.tangentBasis[i], X[i]), w3 = out3(q.tangentBasis[src[0]], std::get<1>(in[0]));
        REQ(g, (v3 - w3).norm() <= 1e-4 * w3.norm(), "the vector carried along a plane turned: " << v3 << " for " << w3);
        g.label("plane");
      }
    }
    REQ_THROWS(g, s.solver->transportTangentVectors({}), "no sources");
  }
}
static void logMap(G& g) {
  HS s;
  makeHS(g, s);
  PointPositionGeometry& q = *s.o.geom;
  size_t n = s.o.in.P.size(), src = g.below(n);
  g.note("source ", src);
  PointData<Vector2> X = s.solver->computeLogMap(s.o.cloud->point(src));
  PointData<double> D = s.solver->computeDistance(s.o.cloud->point(src));
  q.requireTangentCoordinates();
  VD a = VD::Zero(n), b = VD::Zero(n);
  for (size_t j = 0; j < q.neighbors->neighbors[src].size(); j++) {
    size_t k = q.neighbors->neighbors[src][j].getIndex();
    a(k) = q.tangentCoordinates[src][j].x, b(k) = q.tangentCoordinates[src][j].y;
  }
  Eigen::LDLT<MD> H(s.M + s.t * s.L);
  VD xa = H.solve(a), xb = H.solve(b);
  double top = std::max(xa.cwiseAbs().maxCoeff(), xb.cwiseAbs().maxCoeff()), range = 0;
  for (size_t i = 0; i < n; i++) range = std::max(range, std::fabs(D[i]));
  for (size_t i = 0; i < n; i++) {
    REQ(g, isfinite(X[i]), "logarithm of " << i);
    REQ_NEAR(g, X[i].norm(), std::fabs(D[i]), 1e-6 * range, "length of the logarithm of " << i);
    Vector2 w{xa(i), xb(i)};
    if (w.norm() < 1e-6 * top) continue;
    REQ(g, (X[i] - w.normalize() * D[i]).norm() <= 1e-5 * range, "logarithm of " << i << ": " << X[i] << " for " << w.normalize() * D[i]);
    g.label("compared");
  }
  REQ(g, X[src].norm() <= 1e-6 * range, "logarithm of the source");
}

static void pcSpecs(std::vector<pbt::Spec>& specs);
#include "pcloud_signed.h"

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  pcSpecs(specs);
  return pbt::run(argc, argv, specs);
}
static void pcSpecs(std::vector<pbt::Spec>& specs) {
  specs.push_back({"C24",
                   "clouds of up to 60 points on planes, spheres, curved surfaces, in space, on grids and with coincident points, with computed or given "
                   "(also inconsistently oriented) normals and frames; non-trivial: the cloud satisfies the stated generic conditions of its kind",
                   {{"basics", basics, 6000, 60000},
                    {"nearest", nearest, 4000, 20000},
                    {"pointwise", pointwise, 4000, 60000},
                    {"triangulation", localTri, 5000, 100000},
                    {"laplacian", laplacians, 4000, 60000},
                    {"protocol", protocol, 1500, 20000},
                    {"files", files, 2000, 10000},
                    {"sampling", sampling, 300, 3000}},
                   {"happly is replaced by a stand-in (its submodule is empty in this sandbox)"}});
  specs.push_back({"C25",
                   "clouds of 10 to 40 points whose tufted triangulation is connected and well-shaped, several queries per solver; non-trivial: all",
                   {{"distance", distances, 1500, 30000},
                    {"extension", extension, 1500, 30000},
                    {"transport", transport, 1500, 30000},
                    {"logmap", logMap, 1500, 30000},
                    {"signed", signedDistances, 1500, 30000}},
                   {"heat values below 1e-7 of the maximum are not compared; distances up to the Laplacian shift of 1e-6"}});
}
