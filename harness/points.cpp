// C16: tracing geodesics
// C21: surface points, barycentric vectors and their helpers
#include "pointutil.h"
#include "pbt_main.h"

#include "geometrycentral/surface/barycentric_coordinate_helpers.h"
#include "geometrycentral/surface/barycentric_vector.h"
#include "geometrycentral/surface/surface_point.h"
#include "geometrycentral/surface/trace_geodesic.h"

#include <Eigen/Dense>

using namespace mg;


static void checkTrace(G& g, const TriOracle& o, const Ref& r, const TraceGeodesicResult& t, SurfacePoint s, bool path, double len,
                       size_t limit, const std::string& what) {
  bool cut = !r.stopped && r.crossings.size() >= std::max<size_t>(1, limit);
  REQ(g, t.hasPath == path && t.pathPoints.empty() == !path, what << "path given although not asked for, or conversely");
  REQ_NEAR(g, t.length, (double)r.len, 1e-6 * len, what << "length");
  REQ(g, t.hitBoundary == r.stopped, what << "hitBoundary is " << t.hitBoundary);
  double tol = 1e-5;
  auto sameCross = [&](SurfacePoint q, size_t i) {
    Halfedge h = r.crossings[i].first;
    double s0 = (double)r.crossings[i].second;
    if (h != h.edge().halfedge()) s0 = 1 - s0;
    REQ(g, q.type == SurfacePointType::Edge && q.edge == h.edge() && std::fabs(q.tEdge - s0) < tol,
        what << "crossing " << i << " of " << r.crossings.size() << " is " << q << ", expected " << h.edge() << " at " << s0);
  };
  if (r.stopped || cut) {
    sameCross(t.endPoint, r.crossings.size() - 1);
    LC d = edgeFrame(o, r.crossings.back().first, r.dirs.back());
    REQ(g, std::abs(LC(t.endingDir.x, t.endingDir.y) - d) < tol,
        what << "ending direction " << t.endingDir << " on an edge, expected " << (double)d.real() << "," << (double)d.imag());
  } else {
    REQ(g, t.endPoint.type == SurfacePointType::Face && t.endPoint.face == r.f, what << "ends at " << t.endPoint << ", expected in " << r.f);
    REQ(g, norm(t.endPoint.faceCoords - baryOf(o, r.f, r.end)) < tol,
        what << "ends at " << t.endPoint << ", expected " << baryOf(o, r.f, r.end));
    REQ(g, std::abs(LC(t.endingDir.x, t.endingDir.y) - r.dir) < tol,
        what << "ending direction " << t.endingDir << ", expected " << (double)r.dir.real() << "," << (double)r.dir.imag());
  }
  t.endPoint.validate();
  if (path) {
    size_t n = r.crossings.size();
    bool edgeEnd = r.stopped || cut;
    REQ(g, t.pathPoints.size() == 1 + n + (edgeEnd ? 0 : 1), what << t.pathPoints.size() << " path points for " << n << " crossings");
    REQ(g, t.pathPoints[0] == s, what << "path begins at " << t.pathPoints[0] << ", expected " << s);
    for (size_t i = 0; i < n; i++) sameCross(t.pathPoints[i + 1], i);
    REQ(g, t.pathPoints.back() == t.endPoint, what << "path ends elsewhere than endPoint");
  }
}

// what must hold even through degenerate positions
static void sanity(G& g, const TriOracle& o, World& W, const TraceGeodesicResult& t, double len, const std::string& what) {
  t.endPoint.validate();
  REQ(g, std::isfinite(t.length) && t.length >= -1e-6 * len && t.length <= len * (1 + 1e-6), what << "length " << t.length << " of " << len);
  LD total = 0;
  for (size_t i = 0; i + 1 < t.pathPoints.size(); i++) {
    t.pathPoints[i].validate();
    SurfacePoint a = t.pathPoints[i], b = t.pathPoints[i + 1];
    REQ(g, checkAdjacent(a, b), what << "consecutive points " << a << " and " << b << " are not adjacent");
    if (W.delta) continue;
    Face f = sharedFace(a, b);
    Vector3 d = b.inFace(f).faceCoords - a.inFace(f).faceCoords;
    Halfedge h[3];
    LC p[3];
    corners(o, f, h, p);
    total += std::abs(p[0] * (LD)d.x + p[1] * (LD)d.y + p[2] * (LD)d.z);
  }
  if (!W.delta && t.pathPoints.size() > 1)
    REQ_NEAR(g, (double)total, t.length, 1e-5 * (len + W.scale) * (double)t.pathPoints.size(), what << "length of the path points");
}

static void traces(G& g) {
  World W = makeWorld(g, .12);
  TriOracle o = oracle(W);
  EdgeData<bool> barrier(*W.m, false);
  int n = g.range(1, 4);
  for (int k = 0; k < n; k++) {
    SurfacePoint s = genPoint(g, *W.m, g.chance(.3));
    double len = W.scale * (g.chance(.3) ? std::pow(10., g.real(-4, 0)) : g.real(.1, 6));
    double ang = g.real(0, 2 * M_PI);
    if (s.type == SurfacePointType::Vertex && s.vertex.isBoundary() && g.chance(.9)) ang = g.real(0, M_PI);
    if (s.type == SurfacePointType::Edge && s.edge.isBoundary() && g.chance(.9)) ang = g.real(0, M_PI);
    bool special = g.chance(.15);
    if (special) { // along an edge of the start
      if (s.type == SurfacePointType::Vertex) {
        std::vector<Halfedge> hs;
        for (Halfedge h : s.vertex.outgoingHalfedges()) hs.push_back(h);
        ang = (double)o.phi[g.pick(hs).getIndex()];
      } else
        ang = M_PI / 2 * g.below(4);
    }
    TraceOptions opt;
    opt.includePath = !g.chance(.2);
    size_t limit = 1000;
    if (g.chance(.2)) opt.maxIters = limit = (size_t)g.range(0, 5);
    bool bar = g.chance(.25);
    if (bar) {
      for (Edge e : W.m->edges()) barrier[e] = g.chance(.3);
      if (s.type == SurfacePointType::Edge) barrier[s.edge] = false;
      opt.barrierEdges = &barrier;
    }
    Vector2 v = Vector2::fromAngle(ang) * len;
    g.note("trace from ", s, " angle ", ang, " len ", len, opt.includePath ? " path" : "", " limit ", limit, bar ? " barriers" : "");
    TraceGeodesicResult t;
    Ref r;
    if (s.type == SurfacePointType::Face && g.chance(.4)) {
      // barycentric version
      Halfedge h[3];
      LC p[3];
      corners(o, s.face, h, p);
      Vector3 b0 = baryOf(o, s.face, 0), b1 = baryOf(o, s.face, LC(v.x, v.y));
      Vector3 d = b1 - b0;
      if (g.chance(.3)) d += Vector3::constant(g.jitter(1)); // the part which does not sum to zero is projected out
      g.label("barycentric input");
      t = traceGeodesic(*W.geo, s.face, s.faceCoords, d, opt);
    } else
      t = traceGeodesic(*W.geo, s, v, opt);
    r = reference(o, s, LC(v.x, v.y), bar ? &barrier : nullptr, limit);
    // tangential starts and crossings near vertices are decided by rounding
    bool generic = r.margin > 1e-4 && r.crossings.size() < 200;
    if (s.type == SurfacePointType::Edge && (s.tEdge < 1e-3 || s.tEdge > 1 - 1e-3)) generic = false;
    if (s.type == SurfacePointType::Face && std::min({s.faceCoords.x, s.faceCoords.y, s.faceCoords.z}) < 1e-3) generic = false;
    if (generic && r.stopped && r.crossings.empty()) {
      // pointing out of the surface: does not move
      REQ(g, t.endPoint.type == SurfacePointType::Edge && t.endPoint.edge == s.edge && std::fabs(t.endPoint.tEdge - s.tEdge) < 1e-9, "leaves the surface from " << s << " to " << t.endPoint);
      REQ(g, t.hitBoundary && std::fabs(t.length) < 1e-9 * len, "pointing out of the surface: length " << t.length);
      g.label("pointing outwards");
    } else if (generic) {
      g.label("compared with the reference");
      if (r.crossings.size() > 3) g.label("more than 3 crossings");
      if (r.stopped) g.label(bar ? "stopped" : "hit boundary");
      if (s.type == SurfacePointType::Vertex) g.label("from vertex");
      checkTrace(g, o, r, t, s, opt.includePath, len, limit, "trace: ");
      // going back along the reverse of the ending direction returns to the start
      if (!r.stopped && limit == 1000 && !bar && r.crossings.size() < 30) {
        TraceGeodesicResult back = traceGeodesic(*W.geo, t.endPoint, -t.endingDir * len, opt);
        if (s.type == SurfacePointType::Face) {
          Ref rb = reference(o, t.endPoint, LC(-t.endingDir.x * len, -t.endingDir.y * len), nullptr, 1000);
          if (rb.margin > 1e-3)
            REQ(g, back.endPoint.type == SurfacePointType::Face && back.endPoint.face == s.face && norm(back.endPoint.faceCoords - s.faceCoords) < 1e-4,
                "tracing back ends at " << back.endPoint << " instead of " << s);
        }
      }
    } else {
      g.label("degenerate");
      bool outward = (s.type == SurfacePointType::Vertex && s.vertex.isBoundary()) || (s.type == SurfacePointType::Edge && s.edge.isBoundary());
      if (!bar && limit == 1000 && !outward && !special && !W.delta) sanity(g, o, W, t, len, "degenerate trace: ");
      else t.endPoint.validate();
    }
    if (special) g.label("special direction");
    TraceGeodesicResult z = traceGeodesic(*W.geo, s, Vector2::zero(), opt);
    REQ(g, z.length == 0, "zero trace has length " << z.length);
    if (z.endPoint.type == SurfacePointType::Face && !W.delta) {
      SurfacePoint s2 = s.inFace(z.endPoint.face);
      REQ(g, norm(s2.faceCoords - z.endPoint.faceCoords) < 1e-9, "zero trace moves from " << s << " to " << z.endPoint);
    }
  }
}

// traces which are known to end at a vertex, cut back to its one-ring
static void trim(G& g) {
  World W = makeWorld(g, .12);
  TriOracle o = oracle(W);
  if (W.delta) g.discard();
  Vertex target = pickVertex(g, *W.m);
  // a point in a face of the second ring or closer whose straight line to the target is inside the strip face | one-ring
  std::vector<Halfedge> hs;
  for (Halfedge h : target.outgoingHalfedges()) {
    if (!h.isInterior()) continue;
    Halfedge op = h.next();
    if (op.twin().isInterior()) hs.push_back(op.twin());
  }
  if (hs.empty()) g.discard();
  Halfedge he = g.pick(hs); // in the outer face, opposite the target across its edge
  Face f = he.face();
  Halfedge h[3];
  LC p[3];
  corners(o, f, h, p);
  int k = 0;
  while (h[k] != he) k++;
  // the target, in the frame of f
  Halfedge tw = he.twin();
  LC tv = (o.vecInFace(tw.next())) / o.across(he); // from tail of he (tip of tw)
  LC T = p[k] + tv;
  Vector3 b = genBary(g);
  LC x = p[0] * (LD)b.x + p[1] * (LD)b.y + p[2] * (LD)b.z;
  LC d = T - x;
  // must cross he well inside
  LC e = p[(k + 1) % 3] - p[k];
  LD den = crs(d, e);
  if (den <= 0) g.discard();
  LD s = crs(p[k] - x, d) / den;
  if (s < .02 || s > .98) g.discard();
  if (!target.isBoundary() && g.coin()) d *= 1 + g.real(-.01, .01);
  else d *= 1 - g.real(0, .01);
  TraceOptions opt;
  opt.includePath = true;
  TraceGeodesicResult t = traceGeodesic(*W.geo, SurfacePoint(f, b), Vector2{(double)d.real(), (double)d.imag()}, opt);
  g.note("target ", target, " from ", SurfacePoint(f, b));
  size_t before = t.pathPoints.size();
  std::vector<SurfacePoint> keep = t.pathPoints;
  bool ok = trimTraceResult(t, target);
  REQ(g, ok, "trimming fails for a trace which ends at the target (" << before << " points)");
  REQ(g, t.pathPoints.size() == 2, "trimmed path has " << t.pathPoints.size() << " points instead of start and entry of the one-ring");
  REQ(g, t.pathPoints[0] == keep[0] && t.pathPoints[1].type == SurfacePointType::Edge && t.pathPoints[1].edge == he.edge(), "trimmed path ends at " << t.pathPoints[1]);
  g.label("trimmed");
}

// ================================================================ C21
struct Closure {
  std::set<size_t> faces, edges;
};
static Closure closure(SurfaceMesh& m, const SurfacePoint& p) {
  Closure c;
  for (Face f : m.faces()) {
    bool in = false;
    if (p.type == SurfacePointType::Face) in = f == p.face;
    for (Halfedge h : f.adjacentHalfedges()) {
      if (p.type == SurfacePointType::Edge && h.edge() == p.edge) in = true;
      if (p.type == SurfacePointType::Vertex && h.vertex() == p.vertex) in = true;
    }
    if (in) c.faces.insert(f.getIndex());
  }
  for (Edge e : m.edges()) {
    if (p.type == SurfacePointType::Edge && e == p.edge) c.edges.insert(e.getIndex());
    if (p.type == SurfacePointType::Vertex && (e.firstVertex() == p.vertex || e.secondVertex() == p.vertex)) c.edges.insert(e.getIndex());
  }
  return c;
}
static std::set<size_t> meet(const std::set<size_t>& a, const std::set<size_t>& b) {
  std::set<size_t> r;
  for (size_t x : a)
    if (b.count(x)) r.insert(x);
  return r;
}
// weights of the vertices (by corner index for faces)
static std::map<size_t, double> weights(const SurfacePoint& p) {
  std::map<size_t, double> w;
  if (p.type == SurfacePointType::Vertex) w[p.vertex.getIndex()] += 1;
  if (p.type == SurfacePointType::Edge) {
    w[p.edge.halfedge().tailVertex().getIndex()] += 1 - p.tEdge;
    w[p.edge.halfedge().tipVertex().getIndex()] += p.tEdge;
  }
  if (p.type == SurfacePointType::Face) {
    Halfedge h = p.face.halfedge();
    for (int i = 0; i < 3; i++, h = h.next()) w[h.vertex().getIndex()] += p.faceCoords[i];
  }
  return w;
}
static bool same(std::map<size_t, double> a, const std::map<size_t, double>& b) {
  for (auto& x : b) a[x.first] -= x.second;
  for (auto& x : a)
    if (std::fabs(x.second) > 1e-12) return false;
  return true;
}

static void surfacePoints(G& g) {
  std::unique_ptr<SurfaceMesh> mesh;
  bool general = g.chance(.4);
  if (general) {
    Geo w = genGeneralTriGeo(g, 10, .02);
    mesh = std::move(w.mesh);
    if (mesh->usesImplicitTwin()) g.label("general mesh, implicit twins");
  } else {
    World W = makeWorld(g, .05);
    if (W.delta) g.discard();
    mesh = std::move(W.w.mesh);
  }
  SurfaceMesh& m = *mesh;
  VertexData<double> f(m);
  VertexData<Vector3> f3(m);
  for (Vertex v : m.vertices()) {
    f[v] = g.real(-2, 2);
    f3[v] = Vector3{g.real(-2, 2), f[v], -f[v]};
  }
  int n = g.range(2, 8);
  for (int k = 0; k < n; k++) {
    SurfacePoint a = genPoint(g, m), b = genPoint(g, m);
    g.note(a, " ", b);
    if (g.coin()) { // nearby pairs
      Closure c = closure(m, a);
      std::vector<size_t> fs(c.faces.begin(), c.faces.end());
      if (!fs.empty()) {
        Face nf = m.face(g.pick(fs));
        Halfedge h = nf.halfedge();
        int r = (int)g.below(3);
        while (r--) h = h.next();
        int ty = (int)g.below(3);
        if (ty == 0) b = SurfacePoint(h.vertex());
        if (ty == 1) b = SurfacePoint(h, g.real(0, 1));
        if (ty == 2) b = SurfacePoint(nf, genBary(g, false));
      }
    }
    a.validate();
    b.validate();
    Closure ca = closure(m, a), cb = closure(m, b);
    std::set<size_t> mf = meet(ca.faces, cb.faces), me = meet(ca.edges, cb.edges);
    REQ(g, checkAdjacent(a, b) == !mf.empty(), "checkAdjacent(" << a << ", " << b << ") = " << checkAdjacent(a, b));
    REQ(g, checkAdjacent(b, a) == !mf.empty(), "checkAdjacent is not symmetric for " << a << ", " << b);
    Face sf = sharedFace(a, b);
    REQ(g, mf.empty() ? sf == Face() : (sf != Face() && mf.count(sf.getIndex())), "sharedFace(" << a << ", " << b << ") = " << sf);
    bool sameVertex = a.type == SurfacePointType::Vertex && b.type == SurfacePointType::Vertex && a.vertex == b.vertex;
    if (!sameVertex) {
      Edge se = sharedEdge(a, b);
      REQ(g, me.empty() ? se == Edge() : (se != Edge() && me.count(se.getIndex())), "sharedEdge(" << a << ", " << b << ") = " << se);
    }
    if (!mf.empty()) g.label("adjacent pair");
    bool sameEl = a.type == b.type && (a.type == SurfacePointType::Vertex ? a.vertex == b.vertex : a.type == SurfacePointType::Edge ? a.edge == b.edge : a.face == b.face);
    REQ(g, onSameElement(a, b) == sameEl, "onSameElement");
    REQ(g, a == a && !(a != a) && (a == b) == !(a != b), "equality");

    auto w = weights(a);
    double want = 0, want3 = 0;
    for (auto& x : w) {
      want += x.second * f[m.vertex(x.first)];
      want3 += x.second * f3[m.vertex(x.first)].x;
    }
    REQ_NEAR(g, a.interpolate(f), want, 1e-12, "interpolate at " << a);
    REQ_NEAR(g, a.interpolate(f3).x, want3, 1e-12, "interpolate at " << a);
    REQ_NEAR(g, a.interpolate(f3).y, want, 1e-12, "interpolate at " << a);
    Vertex nv = a.nearestVertex();
    double wm = 0;
    if (a.type == SurfacePointType::Vertex) REQ(g, nv == a.vertex, "nearestVertex of a vertex");
    for (auto& x : w) wm = std::max(wm, x.second);
    REQ(g, w.count(nv.getIndex()) && w[nv.getIndex()] >= wm - 1e-12, "nearestVertex of " << a << " is " << nv);

    SurfacePoint af = a.inSomeFace();
    af.validate();
    REQ(g, af.type == SurfacePointType::Face && ca.faces.count(af.face.getIndex()) && same(weights(af), w), "inSomeFace of " << a << " is " << af);
    if (a.type == SurfacePointType::Face) REQ(g, af == a, "inSomeFace changes a face point");
    for (Face q : m.faces()) {
      if (ca.faces.count(q.getIndex())) {
        SurfacePoint aq = a.inFace(q);
        REQ(g, aq.type == SurfacePointType::Face && aq.face == q && same(weights(aq), w), a << " inFace " << q << " is " << aq);
      } else
        REQ_THROWS(g, a.inFace(q), a << " inFace(" << q << ") although not adjacent");
    }
    for (Edge q : m.edges()) {
      if (ca.edges.count(q.getIndex())) {
        SurfacePoint aq = a.inEdge(q);
        REQ(g, aq.type == SurfacePointType::Edge && aq.edge == q && same(weights(aq), w), a << " inEdge " << q << " is " << aq);
      } else
        REQ_THROWS(g, a.inEdge(q), a << " inEdge(" << q << ") although not adjacent");
    }
    // points along halfedges
    Halfedge h = m.halfedge(0);
    {
      std::vector<Halfedge> hs;
      for (Halfedge x : m.halfedges()) hs.push_back(x);
      h = g.pick(hs);
      double t = g.real(0, 1);
      SurfacePoint p(h, t);
      std::map<size_t, double> wh;
      wh[h.tailVertex().getIndex()] += 1 - t;
      wh[h.tipVertex().getIndex()] += t;
      REQ(g, p.type == SurfacePointType::Edge && p.edge == h.edge() && same(weights(p), wh), "SurfacePoint(" << h << "," << t << ") is " << p);
    }
    // invalid points
    SurfacePoint bad = a;
    if (a.type == SurfacePointType::Vertex) bad.vertex = Vertex();
    if (a.type == SurfacePointType::Edge) switch (g.below(4)) {
      case 0: bad.edge = Edge(); break;
      case 1: bad.tEdge = 1.01; break;
      case 2: bad.tEdge = -.01; break;
      default: bad.tEdge = std::nan("");
      }
    if (a.type == SurfacePointType::Face) {
      int c = (int)g.below(3);
      switch (g.below(5)) {
      case 0: bad.face = Face(); break;
      case 1: bad.faceCoords[c] += .01; break;
      case 2: bad.faceCoords *= .9; break;
      case 3: {
        bad.faceCoords[(c + 1) % 3] += bad.faceCoords[c] + .01;
        bad.faceCoords[c] = -.01;
        break;
      }
      default: bad.faceCoords[c] = std::nan("");
      }
    }
    REQ_THROWS(g, bad.validate(), "invalid point " << bad << " accepted");
  }
}

// vectors: explicit planar coordinates in the frame of a face
static LC cart(const TriOracle& o, const BarycentricVector& v, Face f) {
  BarycentricVector w = v.inFace(f);
  Halfedge h[3];
  LC p[3];
  corners(o, f, h, p);
  return p[0] * (LD)w.faceCoords.x + p[1] * (LD)w.faceCoords.y + p[2] * (LD)w.faceCoords.z;
}
// the same from its fields, independently of inFace
static LC cartRef(const TriOracle& o, const BarycentricVector& v, Face f) {
  if (v.type == BarycentricVectorType::Vertex) return 0;
  Halfedge h[3];
  LC p[3];
  corners(o, f, h, p);
  if (v.type == BarycentricVectorType::Face) return p[0] * (LD)v.faceCoords.x + p[1] * (LD)v.faceCoords.y + p[2] * (LD)v.faceCoords.z;
  for (int i = 0; i < 3; i++)
    if (h[i].edge() == v.edge) {
      LC e = p[(i + 1) % 3] - p[i];
      return h[i] == v.edge.halfedge() ? e * (LD)v.edgeCoords.y : e * (LD)v.edgeCoords.x;
    }
  return LC(NAN, 0);
}
static bool close(const BarycentricVector& a, const BarycentricVector& b) {
  if (a.type != b.type || a.face != b.face || a.edge != b.edge || a.vertex != b.vertex) return false;
  if (a.type == BarycentricVectorType::Face) return norm(a.faceCoords - b.faceCoords) <= 1e-12 * (1 + norm(a.faceCoords));
  if (a.type == BarycentricVectorType::Edge) return norm(a.edgeCoords - b.edgeCoords) <= 1e-12 * (1 + norm(a.edgeCoords));
  return true;
}
static SurfacePoint support(const BarycentricVector& v) { // some point on the element which carries v
  if (v.type == BarycentricVectorType::Vertex) return SurfacePoint(v.vertex);
  if (v.type == BarycentricVectorType::Edge) return SurfacePoint(v.edge, .5);
  return SurfacePoint(v.face, Vector3::constant(1. / 3));
}

static BarycentricVector genVec(G& g, SurfaceMesh& m) {
  switch (g.below(3)) {
  case 0: return BarycentricVector(pickVertex(g, m));
  case 1: {
    double a = g.chance(.1) ? 0. : g.real(-2, 2);
    return BarycentricVector(pickEdge(g, m), Vector2{a, -a});
  }
  default: {
    double a = g.real(-2, 2), b = g.real(-2, 2);
    if (g.chance(.1)) a = b = 0;
    return BarycentricVector(pickFace(g, m), Vector3{a, b, -a - b});
  }
  }
}
static BarycentricVector vecNear(G& g, SurfaceMesh& m, const BarycentricVector& u) {
  Closure c = closure(m, support(u));
  std::vector<size_t> fs(c.faces.begin(), c.faces.end());
  Face nf = m.face(g.pick(fs));
  Halfedge h = nf.halfedge();
  int r = (int)g.below(3);
  while (r--) h = h.next();
  double a = g.real(-2, 2), b = g.real(-2, 2);
  switch (g.below(3)) {
  case 0: return BarycentricVector(h.vertex());
  case 1: return BarycentricVector(h.edge(), Vector2{a, -a});
  default: return BarycentricVector(nf, Vector3{a, b, -a - b});
  }
}

static void vectors(G& g) {
  World W = makeWorld(g, .12);
  if (W.delta) g.discard();
  TriOracle o = oracle(W);
  SurfaceMesh& m = *W.m;
  int n = g.range(2, 8);
  for (int k = 0; k < n; k++) {
    BarycentricVector u = genVec(g, m), v = g.chance(.8) ? vecNear(g, m, u) : genVec(g, m);
    g.note(u, " ", v);
    u.validate();
    v.validate();
    Closure cu = closure(m, support(u)), cv = closure(m, support(v));
    std::set<size_t> mf = meet(cu.faces, cv.faces), me = meet(cu.edges, cv.edges);
    LD tol = 1e-9 * W.scale;

    // one vector
    for (Face f : m.faces()) {
      if (cu.faces.count(f.getIndex())) {
        BarycentricVector uf = u.inFace(f);
        REQ(g, uf.type == BarycentricVectorType::Face && uf.face == f && std::abs(cart(o, u, f) - cartRef(o, u, f)) < tol, u << " inFace " << f << " is " << uf);
      } else
        REQ_THROWS(g, u.inFace(f), u << " inFace(" << f << ") although not adjacent");
    }
    BarycentricVector us = u.inSomeFace();
    REQ(g, us.type == BarycentricVectorType::Face && cu.faces.count(us.face.getIndex()), "inSomeFace of " << u);
    Face F = us.face;
    LC cu0 = cartRef(o, u, F);
    REQ(g, std::abs(cart(o, us, F) - cu0) < tol, "inSomeFace of " << u << " is " << us);
    if (u.type != BarycentricVectorType::Face)
      for (Edge e : m.edges()) {
        if (cu.edges.count(e.getIndex())) {
          BarycentricVector ue = u.inEdge(e);
          REQ(g, ue.type == BarycentricVectorType::Edge && ue.edge == e, "inEdge of " << u);
          if (u.type == BarycentricVectorType::Edge) REQ(g, ue == u, "inEdge changes " << u);
          else REQ(g, ue.edgeCoords == Vector2::zero(), "inEdge of a vertex vector is " << ue);
        } else
          REQ_THROWS(g, u.inEdge(e), u << " inEdge(" << e << ") although not adjacent");
      }
    else
      REQ_THROWS(g, u.inEdge(pickEdge(g, m)), "face vector in an edge");
    LD nu = std::abs(cu0);
    LD ntol = 1e-7 * W.scale; // the metric form cancels
    REQ_NEAR(g, u.norm(*W.geo), (double)nu, (double)ntol, "norm of " << u);
    REQ_NEAR(g, norm(*W.geo, u), (double)nu, (double)ntol, "norm of " << u);
    REQ_NEAR(g, u.norm2(*W.geo), (double)(nu * nu), (double)(tol * (nu + W.scale)), "norm2 of " << u);
    REQ_NEAR(g, norm2(*W.geo, u), (double)(nu * nu), (double)(tol * (nu + W.scale)), "norm2 of " << u);
    // scalars
    double s = g.chance(.1) ? 0. : g.real(-3, 3);
    REQ(g, std::abs(cartRef(o, u * s, F) - cu0 * (LD)s) < tol && std::abs(cartRef(o, s * u, F) - cu0 * (LD)s) < tol, "scaling of " << u << " by " << s);
    REQ(g, std::abs(cartRef(o, -u, F) + cu0) < tol, "negation of " << u);
    BarycentricVector c = u;
    c *= s;
    REQ(g, c.type == u.type && std::abs(cartRef(o, c, F) - cartRef(o, u * s, F)) < tol, "*= differs from * for " << u);
    if (s != 0) {
      REQ(g, std::abs(cartRef(o, u / s, F) - cu0 / (LD)s) < tol / std::fabs(s), "division of " << u << " by " << s);
      c = u;
      c /= s;
      REQ(g, c.type == u.type && std::abs(cartRef(o, c, F) - cartRef(o, u / s, F)) < tol / std::fabs(s), "/= differs from / for " << u);
    }
    REQ(g, u == u && !(u != u) && (u == v) == !(u != v), "equality");
    // rotations
    double th = g.chance(.2) ? M_PI / 2 * g.range(-4, 4) : g.real(-7, 7);
    for (int q = 0; q < 2; q++) {
      BarycentricVector ru = q ? u.rotate90(*W.geo) : u.rotate(*W.geo, th);
      double t = q ? M_PI / 2 : th;
      if (u.type == BarycentricVectorType::Vertex) {
        REQ(g, ru == u, "rotated vertex vector " << ru);
        continue;
      }
      Closure cr = closure(m, support(ru));
      bool inside = false;
      for (size_t x : cr.faces) inside |= cu.faces.count(x) > 0;
      REQ(g, inside, "rotation of " << u << " is in a foreign face: " << ru);
      ru.validate();
      if (ru.type == BarycentricVectorType::Edge) {
        REQ(g, u.type == BarycentricVectorType::Edge && ru.edge == u.edge && std::abs(cartRef(o, ru, F) - cu0 * std::polar((LD)1, (LD)t)) < 10 * tol,
            "rotation of " << u << " by " << t << " is " << ru);
        continue;
      }
      Face rf = ru.face;
      if (u.type == BarycentricVectorType::Face) REQ(g, rf == u.face, "rotation leaves the face");
      LC wantV = cartRef(o, u, rf) * std::polar((LD)1, (LD)t);
      REQ(g, std::abs(cartRef(o, ru, rf) - wantV) < 100 * tol, "rotation of " << u << " by " << t << " is " << ru);
      if (u.type == BarycentricVectorType::Edge && nu > 1e-3 * W.scale && !u.edge.isBoundary()) {
        // must point into the face it is expressed in
        Halfedge h = rf.halfedge();
        while (h.edge() != u.edge) h = h.next();
        LD y = crs(o.vecInFace(h), wantV);
        REQ(g, y > -1e-9 * W.scale * W.scale, "rotation of " << u << " by " << t << " does not point into its face " << rf);
        g.label("rotated edge vector");
      }
    }
    // displacement normalisation
    BarycentricVector dn = u;
    double sh = g.jitter(1);
    if (u.type == BarycentricVectorType::Face) dn.faceCoords += Vector3::constant(sh);
    if (u.type == BarycentricVectorType::Edge) dn.edgeCoords += Vector2{sh, sh};
    if (std::fabs(sh) > 1e-3 && u.type != BarycentricVectorType::Vertex) REQ_THROWS(g, dn.validate(), "vector which does not sum to zero accepted");
    BarycentricVector dm = dn.normalizedDisplacement();
    REQ(g, dm.type == u.type && std::abs(cartRef(o, dm, F) - cu0) < 10 * tol, "normalizedDisplacement");
    dn.normalizeDisplacement();
    REQ(g, close(dn, dm), "normalizeDisplacement differs from normalizedDisplacement");

    // two vectors
    Face sf = sharedFace(u, v);
    REQ(g, mf.empty() ? sf == Face() : sf != Face() && mf.count(sf.getIndex()), "sharedFace(" << u << "," << v << ") = " << sf);
    Edge se = sharedEdge(u, v);
    bool sameVertex = u.type == BarycentricVectorType::Vertex && v.type == BarycentricVectorType::Vertex && u.vertex == v.vertex;
    if (!sameVertex) REQ(g, me.empty() ? se == Edge() : se != Edge() && me.count(se.getIndex()), "sharedEdge(" << u << "," << v << ") = " << se);
    if (mf.empty()) {
      REQ_THROWS(g, u + v, "sum of unrelated vectors");
      REQ_THROWS(g, u - v, "difference of unrelated vectors");
      c = u;
      REQ_THROWS(g, c += v, "sum of unrelated vectors");
      REQ_THROWS(g, c -= v, "difference of unrelated vectors");
      REQ_THROWS(g, dot(*W.geo, u, v), "inner product of unrelated vectors");
      continue;
    }
    g.label("pair sharing a face");
    for (size_t fi : mf) {
      Face f = m.face(fi);
      LC a = cartRef(o, u, f), b = cartRef(o, v, f);
      BarycentricVector sum = u + v, dif = u - v;
      if (closure(m, support(sum)).faces.count(fi)) {
        REQ(g, std::abs(cartRef(o, sum, f) - (a + b)) < tol, u << " + " << v << " = " << sum);
      }
      if (closure(m, support(dif)).faces.count(fi)) {
        REQ(g, std::abs(cartRef(o, dif, f) - (a - b)) < tol, u << " - " << v << " = " << dif);
      }
      if (f == sf) REQ_NEAR(g, dot(*W.geo, u, v), (double)(a * std::conj(b)).real(), (double)(tol * (std::abs(a) + std::abs(b) + W.scale)), "inner product of " << u << " and " << v);
      c = u;
      c += v;
      REQ(g, close(c, sum), "+= differs from +");
      c = u;
      c -= v;
      REQ(g, close(c, dif), "-= differs from -");
      if (mf.size() == 1 || !me.empty()) REQ(g, sum.type == dif.type, "types of sum and difference");
    }
    // halfedges as vectors
    Halfedge h = pickFace(g, m).halfedge();
    int r = (int)g.below(3);
    while (r--) h = h.next();
    BarycentricVector hv(h, h.face());
    REQ(g, std::abs(cartRef(o, hv, h.face()) - o.vecInFace(h)) < tol, "BarycentricVector(" << h << "," << h.face() << ") = " << hv);
    if (h.twin().isInterior()) {
      BarycentricVector tv(h.twin(), h.face());
      REQ(g, std::abs(cartRef(o, tv, h.face()) + o.vecInFace(h)) < tol, "BarycentricVector of the twin");
    }
    bool own = false;
    Face other = pickFace(g, m);
    for (Halfedge x : other.adjacentHalfedges()) own |= x.edge() == h.edge();
    if (!own) REQ_THROWS(g, BarycentricVector(h, other), "halfedge as vector in a face it does not belong to");
    // differences of points
    SurfacePoint pa = genPoint(g, m);
    Closure ca = closure(m, pa);
    std::vector<size_t> fs(ca.faces.begin(), ca.faces.end());
    Face pf = m.face(g.pick(fs));
    Halfedge ph = pf.halfedge();
    SurfacePoint pb = g.coin() ? SurfacePoint(pf, genBary(g, false)) : g.coin() ? SurfacePoint(ph, g.real(0, 1)) : SurfacePoint(ph.vertex());
    BarycentricVector pv(pa, pb);
    pv.validate();
    Face qf = pv.inSomeFace().face;
    Closure cb = closure(m, pb);
    if (ca.faces.count(qf.getIndex()) && cb.faces.count(qf.getIndex())) {
      Halfedge hh[3];
      LC pp[3];
      corners(o, qf, hh, pp);
      LC x = 0, y = 0;
      Vector3 ba = pa.inFace(qf).faceCoords, bb = pb.inFace(qf).faceCoords;
      for (int i = 0; i < 3; i++) {
        x += pp[i] * (LD)ba[i];
        y += pp[i] * (LD)bb[i];
      }
      REQ(g, std::abs(cartRef(o, pv, qf) - (y - x)) < tol, "vector from " << pa << " to " << pb << " is " << pv);
    }
  }
}

static void helpers(G& g) {
  World W = makeWorld(g, .12);
  TriOracle o = oracle(W);
  Face f = pickFace(g, *W.m);
  Halfedge h[3];
  LC p[3];
  corners(o, f, h, p);
  std::array<Vector2, 3> vc;
  LC off = g.coin() ? LC(0) : LC(g.jitter(2) * W.scale, g.jitter(2) * W.scale);
  for (int i = 0; i < 3; i++) vc[i] = Vector2{(double)(p[i] + off).real(), (double)(p[i] + off).imag()};
  double a = g.real(-2, 2), b = g.real(-2, 2);
  Vector3 d{a, b, -a - b};
  LC c = p[0] * (LD)d.x + p[1] * (LD)d.y + p[2] * (LD)d.z;
  double tol = 1e-9 * W.scale;
  g.note(f, " ", d);
  Vector2 cd = barycentricDisplacementToCartesian(vc, d);
  REQ(g, std::abs(LC(cd.x, cd.y) - c) < tol, "barycentricDisplacementToCartesian");
  Vector3 back = cartesianVectorToBarycentric(vc, cd);
  REQ(g, norm(back - d) < 1e-8, "cartesianVectorToBarycentric gives " << back << " for " << d);
  REQ_NEAR(g, sum(back), 0, 1e-12, "barycentric vector sum");
  Vector3 lens{(double)o.L(h[1].edge()), (double)o.L(h[2].edge()), (double)o.L(h[0].edge())}; // opposite the corners
  REQ_NEAR(g, displacementLength2(d, lens), (double)std::norm(c), tol * (W.scale + (double)std::abs(c)), "displacementLength2");
  REQ_NEAR(g, displacementLength(d, lens), (double)std::abs(c), 1e-6 * W.scale, "displacementLength");
  Vector3 q{g.real(-1, 2), g.real(-1, 2), g.real(-1, 2)};
  Vector3 nb = normalizeBarycentric(q);
  if (std::fabs(sum(q)) > 1e-3) {
    REQ_NEAR(g, sum(nb), 1, 1e-10, "normalizeBarycentric");
    REQ(g, norm(cross(nb, q)) < 1e-9 * norm(q) * norm(nb), "normalizeBarycentric changes ratios");
  }
  REQ_NEAR(g, sum(normalizeBarycentricDisplacement(q)), 0, 1e-12, "normalizeBarycentricDisplacement");
  Vector3 pr = projectInsideTriangle(q);
  REQ(g, isInsideTriangle(pr) && std::fabs(sum(pr) - 1) < 1e-12, "projectInsideTriangle gives " << pr);
  Vector3 in = genBary(g, false);
  REQ(g, norm(projectInsideTriangle(in) - in) < 1e-12, "projectInsideTriangle moves an inside point");
  REQ(g, isInsideTriangle(in) && isInsideTriangle(q) == (q.x >= 0 && q.y >= 0 && q.z >= 0), "isInsideTriangle");
  for (int i = 0; i < 3; i++) {
    REQ(g, halfedgeIndexInTriangle(h[i]) == i, "halfedgeIndexInTriangle");
    Vector3 can = permuteBarycentricToCanonical(q, h[i]);
    for (int j = 0; j < 3; j++) REQ(g, can[(i + j) % 3] == q[j], "permuteBarycentricToCanonical");
    REQ(g, permuteBarycentricFromCanonical(can, h[i]) == q, "permuteBarycentricFromCanonical is not the inverse");
  }
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C16",
                   "triangle meshes (closed and with boundary, with index gaps, Delta-complexes, given by positions or lengths), starts at vertices, edges and faces, all directions, lengths 1e-4..6 edge lengths, "
                   "with barriers and iteration limits; compared crossing by crossing with a long-double unfolding while it keeps away from vertices; non-trivial: more than 4 faces",
                   {{"traces", traces, 30000, 400000}, {"trim", trim, 4000, 60000}},
                   {"traces passing within 1e-4 of a vertex (relative) are only checked for sanity"}});
  specs.push_back({"C21",
                   "surface points and barycentric vectors of all kinds on manifold and (points) general triangle meshes, near and unrelated pairs; oracle: closures and planar coordinates by brute force; non-trivial: more than 4 faces",
                   {{"points", surfacePoints, 6000, 100000}, {"vectors", vectors, 6000, 100000}, {"helpers", helpers, 6000, 60000}},
                   {}});
  return pbt::run(argc, argv, specs);
}
