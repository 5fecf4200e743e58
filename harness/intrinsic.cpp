// C14: intrinsic triangulations (signposts and integer coordinates)
// C15: correspondence with the input surface, common subdivision, function transfer
#include "geomutil.h"
#include "pbt_main.h"

#include "geometrycentral/surface/barycentric_coordinate_helpers.h"
#include "geometrycentral/surface/common_subdivision.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
#include "geometrycentral/surface/transfer_functions.h"

#include <Eigen/Dense>

using namespace mg;

struct Log {
  std::vector<Edge> flips;
  std::vector<std::pair<Face, Vertex>> faceIns;
  struct Sp {
    Edge e;
    Halfedge a, b;
    Vertex va, vb;
  };
  std::vector<Sp> splits;
  size_t nMut() const { return flips.size() + faceIns.size() + splits.size(); }
  void clear() {
    flips.clear();
    faceIns.clear();
    splits.clear();
  }
};

struct World {
  Geo w;
  std::unique_ptr<EdgeLengthGeometry> elg;
  IntrinsicGeometryInterface* geo = nullptr;
  std::vector<LD> inAng; // angle sum of the input vertices
  double area = 0, scale = 1, minInAng = 1e9;
  int chi = 0;
  size_t bl = 0;
  bool flat = false;
};

struct Tri {
  std::unique_ptr<IntrinsicTriangulation> t;
  bool integer = false;
  Log log;
  double markedLen = -1;
  std::string name;
};

static int chiOf(SurfaceMesh& m) { return (int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces(); }
static World makeWorld(G& g, bool flat, int maxF, bool closed = false, double minAng = .15) {
  World W;
  GenOpts o;
  o.tri = true;
  o.maxFaces = maxF;
  o.size = 3;
  o.edits = 5;
  o.closed = closed;
  o.multi = false;
  W.flat = flat;
  if (flat) {
    o.disk = true;
    o.bend = 0;
    o.orientedFlip = false;
    Soup s = genTri(g, o, minAng);
    for (auto& p : s.pos) p.z = 0;
    for (auto& f : s.polys) {
      Vector3 n = cross(s.pos[f[1]] - s.pos[f[0]], s.pos[f[2]] - s.pos[f[0]]);
      if (!(n.z > 0)) g.discard();
    }
    if (minAngle(s) < minAng) g.discard();
    double sc = g.chance(.3) ? std::pow(10., g.jitter(4)) : 1.;
    for (auto& p : s.pos) p *= sc;
    W.w.scale = sc;
    W.w.man = new ManifoldSurfaceMesh(s.polys);
    W.w.mesh.reset(W.w.man);
    W.w.pos = VertexData<Vector3>(*W.w.mesh);
    for (size_t i = 0; i < s.nV(); i++) W.w.pos[W.w.mesh->vertex(i)] = s.pos[i];
    W.w.vpg.reset(new VertexPositionGeometry(*W.w.mesh, W.w.pos));
    g.note(s.desc, " planar F=", W.w.mesh->nFaces(), " scale=", sc);
    g.nontrivial();
  } else {
    W.w = genTriGeo(g, o, false, minAng, 4);
  }
  ManifoldSurfaceMesh& m = *W.w.man;
  if (m.nConnectedComponents() != 1) g.discard();
  { // leave symmetric positions, where circumcentres fall on vertices and edges and rounding decides
    VertexPositionGeometry& vg = *W.w.vpg;
    double l = 1e300;
    vg.requireEdgeLengths();
    for (Edge e : m.edges()) l = std::min(l, vg.edgeLengths[e]);
    vg.unrequireEdgeLengths();
    uint64_t x = 88172645463325252ull;
    auto rnd = [&]() {
      x ^= x << 13, x ^= x >> 7, x ^= x << 17;
      return .02 * l * ((double)(x >> 11) / (double)(1ull << 52) - 1.);
    };
    for (Vertex v : m.vertices()) {
      Vector3 d{rnd(), rnd(), rnd()};
      if (flat) d.z = 0;
      W.w.pos[v] += d;
      vg.inputVertexPositions[v] = vg.vertexPositions[v] = W.w.pos[v];
    }
    vg.refreshQuantities();
  }
  W.geo = W.w.vpg.get();
  if (g.chance(.3)) {
    EdgeData<double> l(m);
    W.w.vpg->requireEdgeLengths();
    for (Edge e : m.edges()) l[e] = W.w.vpg->edgeLengths[e];
    W.elg.reset(new EdgeLengthGeometry(m, l));
    W.geo = W.elg.get();
    g.label("edge length input");
  }
  TriOracle o0 = oracleOf(m, W.w.pos);
  W.inAng.assign(m.nVertices(), 0);
  for (Vertex v : m.vertices()) {
    W.inAng[v.getIndex()] = o0.angSum[v.getIndex()];
    W.minInAng = std::min(W.minInAng, (double)o0.angSum[v.getIndex()]);
  }
  W.area = o0.totalArea();
  W.scale = std::sqrt(W.area);
  W.chi = chiOf(m);
  W.bl = m.nBoundaryLoops();
  return W;
}

static void attach(Tri& T) {
  Log* L = &T.log;
  T.t->edgeFlipCallbackList.push_back([L](Edge e) { L->flips.push_back(e); });
  T.t->faceInsertionCallbackList.push_back([L](Face f, Vertex v) { L->faceIns.push_back({f, v}); });
  T.t->edgeSplitCallbackList.push_back([L](Edge e, Halfedge a, Halfedge b) { L->splits.push_back({e, a, b, a.vertex(), b.vertex()}); });
}
static Tri makeTri(G& g, World& W, bool integer) {
  Tri T;
  T.integer = integer;
  T.name = integer ? "integer: " : "signpost: ";
  if (integer) {
    if (g.chance(.3)) T.t.reset(new IntegerCoordinatesIntrinsicTriangulation(*W.w.man, *W.geo));
    else
      T.t.reset(new IntegerCoordinatesIntrinsicTriangulation(*W.w.man, *W.geo, 0.));
  } else
    T.t.reset(new SignpostIntrinsicTriangulation(*W.w.man, *W.geo));
  return T;
}

static double minAng(IntrinsicTriangulation& t) {
  TriOracle o = oracleOf(*t.intrinsicMesh, t.edgeLengths);
  double r = 10;
  for (Face f : t.intrinsicMesh->faces())
    for (Halfedge h : f.adjacentHalfedges()) r = std::min(r, (double)o.ang[h.getIndex()]);
  return r;
}

// two triangles across he, laid out from lengths: returns the four angles after the flip, and the sums at both ends
struct Quad {
  bool comb = false;
  LD s0 = 0, s1 = 0, minNew = 0, cotSum = 0, newLen = 0;
};
static Quad quadOf(IntrinsicTriangulation& t, Edge e) {
  Quad q;
  if (e.isBoundary()) return q;
  Halfedge h = e.halfedge(), k = h.twin();
  auto L = [&](Halfedge x) { return (LD)t.edgeLengths[x.edge()]; };
  auto ang = [&](LD a, LD b, LD o) { return acosl(std::max(-1.L, std::min(1.L, (a * a + b * b - o * o) / (2 * a * b)))); };
  LD l = L(h), a = L(h.next()), b = L(h.next().next()), c = L(k.next()), d = L(k.next().next());
  // tail of h: angles in both faces
  q.s0 = ang(l, b, a) + ang(l, c, d);
  q.s1 = ang(l, a, b) + ang(l, d, c);
  LD t0 = ang(a, b, l), t1 = ang(c, d, l);
  q.cotSum = cosl(t0) / sinl(t0) + cosl(t1) / sinl(t1);
  LD n2 = b * b + c * c - 2 * b * c * cosl(q.s0);
  q.newLen = sqrtl(std::max(0.L, n2));
  LD n = q.newLen;
  if (n > 0) q.minNew = std::min(std::min(ang(b, n, c), ang(c, n, b)), std::min(std::min(ang(a, n, d), ang(d, n, a)), std::min(q.s0, q.s1)));
  q.comb = h.face() != k.face() && h.vertex().degree() > 1 && k.vertex().degree() > 1;
  return q;
}

static void checkIntrinsic(G& g, World& W, Tri& T, const std::string& when0) {
  IntrinsicTriangulation& t = *T.t;
  std::string when = T.name + when0;
  ManifoldSurfaceMesh& m = *t.intrinsicMesh;
  checkStructure(g, m, when);
  REQ(g, m.isTriangular(), when << ": not a triangulation");
  REQ(g, (int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces() == W.chi, when << ": Euler characteristic changed");
  REQ(g, m.nBoundaryLoops() == W.bl, when << ": boundary loops changed");
  double minL = 1e300;
  for (Edge e : m.edges()) {
    double l = t.edgeLengths[e];
    REQ(g, std::isfinite(l) && l > 0, when << ": length " << l << " of " << e);
    minL = std::min(minL, l);
  }
  for (Face f : m.faces()) {
    double l[3];
    int i = 0;
    for (Edge e : f.adjacentEdges()) l[i++] = t.edgeLengths[e];
    for (i = 0; i < 3; i++)
      REQ(g, l[i] <= (l[(i + 1) % 3] + l[(i + 2) % 3]) * (1 + 1e-7), when << ": triangle inequality violated in " << f << ": " << l[0] << "," << l[1] << "," << l[2]);
  }
  TriOracle o = oracleOf(m, t.edgeLengths);
  REQ_NEAR(g, (double)o.totalArea(), W.area, 1e-6 * W.area, when << ": the area changed");
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    SurfacePoint p = t.vertexLocations[v];
    REQ(g, p.type != SurfacePointType::Vertex || p.vertex.getMesh() == W.w.mesh.get(), when << ": location of " << v << " is not on the input mesh");
    LD want;
    if (p.type == SurfacePointType::Vertex) {
      want = W.inAng[p.vertex.getIndex()];
      REQ(g, p.vertex.isBoundary() == v.isBoundary(), when << ": boundary state of " << v);
    } else {
      want = v.isBoundary() ? LPI : 2 * LPI;
      if (v.isBoundary()) REQ(g, p.type == SurfacePointType::Edge && p.edge.isBoundary(), when << ": a boundary vertex must lie on a boundary edge");
    }
    REQ_NEAR(g, (double)o.angSum[i], (double)want, 1e-4, when << ": angle sum of " << v << " degree " << v.degree());
    REQ_NEAR(g, t.vertexAngleSums[v], (double)want, 1e-4, when << ": stored angle sum of " << v);
  }
  for (Vertex v : W.w.mesh->vertices()) {
    Vertex u = m.vertex(v.getIndex());
    REQ(g, t.vertexLocations[u].type == SurfacePointType::Vertex && t.vertexLocations[u].vertex == v, when << ": original vertex " << v << " moved to " << t.vertexLocations[u]);
  }
  for (Halfedge h : m.interiorHalfedges()) {
    LC a = o.vecInFace(h);
    Vector2 b = t.halfedgeVectorsInFace[h];
    REQ(g, std::abs(a - LC(b.x, b.y)) <= 2e-4 * o.L(h.edge()), when << ": halfedge vector in face of " << h << " is " << b << ", expected " << (double)a.real() << "," << (double)a.imag());
  }
  // directions at vertices: lengths, and angles between neighbours
  for (Vertex v : m.vertices()) {
    for (Halfedge h : v.outgoingHalfedges()) {
      Vector2 b = t.halfedgeVectorsInVertex[h];
      REQ(g, std::fabs(norm(b) - (double)o.L(h.edge())) <= 1e-6 * (double)o.L(h.edge()), when << ": halfedge vector at " << v << " has length " << norm(b) << ", edge " << (double)o.L(h.edge()));
      if (!h.isInterior()) continue;
      Halfedge n = h.next().next().twin();
      Vector2 c = t.halfedgeVectorsInVertex[n];
      LC q = LC(c.x, c.y) / LC(b.x, b.y);
      LC want = std::polar(1.L, o.scaled[h.getIndex()]);
      if (v.degree() == 1) continue;
      REQ(g, std::abs(q / std::abs(q) - want) <= 1e-3, when << ": direction of " << n << " relative to " << h << " at " << v << " is " << (double)std::arg(q) << ", expected " << (double)o.scaled[h.getIndex()] << " boundary=" << v.isBoundary() << " type=" << (int)t.vertexLocations[v].type);
    }
  }
  if (!T.integer) {
    auto& s = static_cast<SignpostIntrinsicTriangulation&>(t);
    for (Edge e : m.edges())
      if (s.edgeIsOriginal[e]) {
        REQ(g, s.checkEdgeOriginal(e), when);
        SurfacePoint a = t.vertexLocations[e.firstVertex()], b = t.vertexLocations[e.secondVertex()];
        REQ(g, a.type == SurfacePointType::Vertex && b.type == SurfacePointType::Vertex, when << ": original edge between inserted vertices");
        bool ok = false;
        for (Edge x : a.vertex.adjacentEdges())
          if (x.otherVertex(a.vertex) == b.vertex && std::fabs(norm(W.w.pos[a.vertex] - W.w.pos[b.vertex]) - t.edgeLengths[e]) < 1e-6 * W.scale) ok = true;
        REQ(g, ok, when << ": edge flagged as original is not an edge of the input");
      }
  }
  if (T.markedLen >= 0) {
    double s = 0;
    for (Edge e : m.edges())
      if (t.markedEdges[e]) s += t.edgeLengths[e];
    REQ_NEAR(g, s, T.markedLen, 1e-6 * (W.scale + T.markedLen), when << ": total length of the marked edges changed");
  }
}

static void queries(G& g, World& W, Tri& T, const std::string& when0) {
  IntrinsicTriangulation& t = *T.t;
  std::string when = T.name + when0;
  ManifoldSurfaceMesh& m = *t.intrinsicMesh;
  TriOracle o = oracleOf(m, t.edgeLengths);
  double ma = 100;
  bool del = true, sure = true;
  for (Face f : m.faces()) {
    double se = 1e300;
    for (Halfedge h : f.adjacentHalfedges()) {
      ma = std::min(ma, (double)o.ang[h.getIndex()]);
      se = std::min(se, t.edgeLengths[h.edge()]);
      REQ_NEAR(g, t.getCornerAngle(h.corner()), (double)o.ang[h.getIndex()], 1e-5, when << ": getCornerAngle");
    }
    REQ(g, t.shortestEdge(f) == se, when << ": shortestEdge");
    auto vc = t.vertexCoordinatesInTriangle(f);
    Halfedge h = f.halfedge();
    for (int i = 0; i < 3; i++, h = h.next()) REQ_NEAR(g, norm(vc[i] - vc[(i + 1) % 3]), t.edgeLengths[h.edge()], 1e-5 * W.scale, when << ": vertexCoordinatesInTriangle");
    REQ(g, cross(vc[1] - vc[0], vc[2] - vc[0]) > 0, when << ": vertexCoordinatesInTriangle orientation");
  }
  REQ_NEAR(g, t.minAngleDegrees() * M_PI / 180, ma, 1e-5, when << ": minAngleDegrees");
  for (Edge e : m.edges()) {
    bool fixed = e.isBoundary() || (T.markedLen >= 0 && t.markedEdges[e]);
    REQ(g, t.isFixed(e) == fixed, when << ": isFixed(" << e << ")");
    Quad q = quadOf(t, e);
    bool d = t.isDelaunay(e);
    if (fixed || q.cotSum > 1e-4) REQ(g, d, when << ": isDelaunay(" << e << ") false with cotan sum " << (double)q.cotSum << " fixed=" << fixed);
    else if (q.cotSum < -1e-4) {
      REQ(g, !d, when << ": isDelaunay(" << e << ") true with cotan sum " << (double)q.cotSum);
      del = false;
    } else
      sure = false;
    if (!e.isBoundary() && e.halfedge().face() != e.halfedge().twin().face()) {
      auto L = t.layoutDiamond(e.halfedge());
      Halfedge h = e.halfedge(), k = h.twin();
      auto len = [&](Halfedge x) { return t.edgeLengths[x.edge()]; };
      double tol = 1e-5 * W.scale;
      REQ_NEAR(g, norm(L[2] - L[0]), len(h), tol, when << " layoutDiamond");
      REQ_NEAR(g, norm(L[0] - L[1]), len(h.next()), tol, when << " layoutDiamond");
      REQ_NEAR(g, norm(L[1] - L[2]), len(h.next().next()), tol, when << " layoutDiamond");
      REQ_NEAR(g, norm(L[2] - L[3]), len(k.next()), tol, when << " layoutDiamond");
      REQ_NEAR(g, norm(L[3] - L[0]), len(k.next().next()), tol, when << " layoutDiamond");
    }
  }
  if (sure || !del) REQ(g, t.isDelaunay() == del, when << ": isDelaunay()");
  for (Vertex v : m.vertices()) {
    bool on = false;
    for (Edge e : v.adjacentEdges()) on = on || t.isFixed(e);
    REQ(g, t.isOnFixedEdge(v) == on, when << ": isOnFixedEdge");
  }
}

static SurfacePoint randPoint(G& g, SurfaceMesh& m, int kind = -1) {
  if (kind < 0) kind = (int)g.weighted({3, 2, 1});
  if (kind == 0) {
    double a = .12 + g.unit(), b = .12 + g.unit(), c = .12 + g.unit(), s = a + b + c;
    return SurfacePoint(pickFace(g, m), Vector3{a / s, b / s, c / s});
  }
  if (kind == 1) return SurfacePoint(pickEdge(g, m), g.real(.12, .88));
  return SurfacePoint(pickVertex(g, m));
}

// smallest angle after inserting p
static double predicted(IntrinsicTriangulation& t, const SurfacePoint& p) {
  auto sub = [&](Face f, Vector3 b) {
    auto vc = t.vertexCoordinatesInTriangle(f);
    Vector2 q = b.x * vc[0] + b.y * vc[1] + b.z * vc[2];
    double r = 10;
    for (int i = 0; i < 3; i++) {
      Vector2 A = vc[i], B = vc[(i + 1) % 3];
      if (b[(i + 2) % 3] == 0) continue;
      auto an = [&](Vector2 o, Vector2 x, Vector2 y) { return std::fabs(std::atan2(cross(x - o, y - o), dot(x - o, y - o))); };
      r = std::min(r, std::min(an(A, B, q), std::min(an(B, q, A), an(q, A, B))));
    }
    return r;
  };
  if (p.type == SurfacePointType::Face) return sub(p.face, p.faceCoords);
  if (p.type == SurfacePointType::Edge) {
    double r = 10;
    for (Halfedge h : {p.edge.halfedge(), p.edge.halfedge().twin()})
      if (h.isInterior()) r = std::min(r, sub(h.face(), p.inFace(h.face()).faceCoords));
    return r;
  }
  return 10;
}

static const double QMIN = .02;

// Splitting edges of faces which are glued to themselves is not supported (splitEdgeTriangular refuses).
static bool selfGlued(Edge e) { return !e.isBoundary() && e.halfedge().face() == e.halfedge().twin().face(); }
static bool anySelfGlued(ManifoldSurfaceMesh& m) {
  for (Edge e : m.edges())
    if (selfGlued(e)) return true;
  return false;
}

// one random operation; returns false if the history should end (quality lost)
static bool step(G& g, World& W, Tri& T, std::string& when, bool heavy, bool removal = true) {
  IntrinsicTriangulation& t = *T.t;
  ManifoldSurfaceMesh& m = *t.intrinsicMesh;
  T.log.clear();
  size_t nF = m.nFaces(), nV = m.nVertices();
  int op = (int)g.weighted({5, 3, 4, 3, 2, 3, removal ? 2 : 0, 2, heavy ? 1 : 0, 1});
  std::ostringstream os;
  bool room = m.nFaces() < 120;
  if (op == 0) {
    Edge e = pickEdge(g, m);
    Quad q = quadOf(t, e);
    if (!e.isBoundary() && q.comb && q.minNew < QMIN && q.s0 < LPI && q.s1 < LPI) return true;
    bool fixed = t.isFixed(e);
    bool r = t.flipEdgeIfPossible(e);
    os << "flipEdgeIfPossible(" << e << ")=" << r;
    when = T.name + os.str();
    if (fixed) REQ(g, !r, when << ": a fixed edge was flipped");
    else if (q.comb) {
      if (q.s0 < LPI - 1e-2 && q.s1 < LPI - 1e-2) REQ(g, r, when << ": refused although the quad is strictly convex " << (double)q.s0 << " " << (double)q.s1);
      if (q.s0 > LPI + 1e-3 || q.s1 > LPI + 1e-3) REQ(g, !r, when << ": flipped although the quad is not convex");
    } else
      REQ(g, !r, when << ": flipped an edge which has the same face on both sides, or a vertex of degree one");
    if (r) REQ_NEAR(g, t.edgeLengths[e], (double)q.newLen, 1e-6 * W.scale, when << ": length of the flipped edge");
    REQ(g, T.log.flips.size() == (r ? 1u : 0u) && T.log.nMut() == T.log.flips.size() && (!r || T.log.flips[0] == e), when << ": flip callbacks");
    g.label("flip");
  } else if (op == 1) {
    Edge e = pickEdge(g, m);
    Quad q = quadOf(t, e);
    bool fixed = t.isFixed(e);
    if (!fixed && q.minNew < QMIN) return true;
    bool r = t.flipEdgeIfNotDelaunay(e);
    os << "flipEdgeIfNotDelaunay(" << e << ")=" << r;
    when = T.name + os.str();
    if (fixed || q.cotSum > 1e-3) REQ(g, !r, when << ": flipped, cotan sum " << (double)q.cotSum << " fixed " << fixed);
    else if (q.cotSum < -1e-3 && q.comb)
      REQ(g, r, when << ": not flipped, cotan sum " << (double)q.cotSum);
    if (r) REQ_NEAR(g, t.edgeLengths[e], (double)q.newLen, 1e-6 * W.scale, when << ": length of the flipped edge");
    REQ(g, T.log.flips.size() == (r ? 1u : 0u) && T.log.nMut() == T.log.flips.size(), when << ": flip callbacks");
  } else if (op == 2 && room) {
    SurfacePoint p = randPoint(g, m, (int)g.weighted({3, 2}));
    if (predicted(t, p) < QMIN) return true;
    Edge e = p.edge;
    if (p.type == SurfacePointType::Edge && selfGlued(e)) return true;
    double oldLen = p.type == SurfacePointType::Edge ? t.edgeLengths[e] : 0;
    bool wasB = p.type == SurfacePointType::Edge && e.isBoundary();
    std::vector<double> wantLen;
    if (p.type == SurfacePointType::Face) {
      auto vc = t.vertexCoordinatesInTriangle(p.face);
      Vector2 q = p.faceCoords.x * vc[0] + p.faceCoords.y * vc[1] + p.faceCoords.z * vc[2];
      for (auto x : vc) wantLen.push_back(norm(x - q));
    } else {
      wantLen = {p.tEdge * oldLen, (1 - p.tEdge) * oldLen};
    }
    os << "insertVertex(" << p << ")";
    Vertex v = t.insertVertex(p);
    when = T.name + os.str();
    REQ(g, v != Vertex() && m.nVertices() == nV + 1, when << ": vertex count");
    std::vector<double> have;
    for (Edge x : v.adjacentEdges()) have.push_back(t.edgeLengths[x]);
    for (double x : wantLen) {
      bool ok = false;
      for (double y : have) ok = ok || std::fabs(x - y) < 1e-6 * W.scale;
      REQ(g, ok, when << ": no edge of length " << x << " at the new vertex");
    }
    if (p.type == SurfacePointType::Face) {
      REQ(g, v.degree() == 3 && T.log.faceIns.size() == 1 && T.log.nMut() == 1 && T.log.faceIns[0].second == v, when << ": face insertion callback");
      g.label("insert in face");
    } else {
      REQ(g, v.isBoundary() == wasB && v.degree() == (wasB ? 3u : 4u), when << ": degree");
      REQ(g, T.log.splits.size() == 1 && T.log.nMut() == 1 && T.log.splits[0].va == v && T.log.splits[0].vb == v, when << ": edge split callback");
      g.label(wasB ? "insert on boundary edge" : "insert on edge");
    }
  } else if (op == 3 && room) {
    Edge e = pickEdge(g, m);
    Halfedge he = g.coin() ? e.halfedge().twin() : e.halfedge();
    double tt = g.real(.15, .85);
    SurfacePoint p(he, tt);
    if (predicted(t, p) < QMIN || selfGlued(e)) return true;
    double L = t.edgeLengths[e];
    Vertex va = he.vertex(), vb = he.tipVertex();
    bool fixed = t.isFixed(e), inter = he.isInterior();
    os << "splitEdge(" << he << " interior=" << inter << " forward=" << (he == e.halfedge()) << ", " << tt << ")";
    Halfedge r = t.splitEdge(he, tt);
    when = T.name + os.str();
    Vertex v = r.vertex();
    REQ(g, m.nVertices() == nV + 1 && v.getIndex() >= nV, when << ": no new vertex");
    REQ(g, r.tipVertex() == vb, when << ": the returned halfedge does not point in the direction of the argument");
    REQ_NEAR(g, t.edgeLengths[r.edge()], (1 - tt) * L, 1e-6 * W.scale, when << ": length of the segment in the direction of the argument");
    REQ(g, r.isInterior() == inter, when << ": side of the returned halfedge");
    Halfedge back = inter ? r.next().next().twin().next().next().twin() : r.twin().next().twin().next();
    if (inter || true) {
      if (!inter) back = r.twin().next().next().twin(); // placeholder, only used through the callback below
    }
    REQ(g, T.log.splits.size() == 1 && T.log.nMut() == 1, when << ": edge split callback");
    auto& s = T.log.splits[0];
    REQ(g, s.va == v && s.vb == v && s.a.vertex() == v && s.b.vertex() == v, when << ": split callback vertices");
    REQ_NEAR(g, t.edgeLengths[s.a.edge()] + t.edgeLengths[s.b.edge()], L, 1e-6 * W.scale, when << ": split callback halfedges");
    std::set<Vertex> ends{s.a.tipVertex(), s.b.tipVertex()}, want{va, vb};
    REQ(g, ends == want, when << ": split callback ends");
    if (fixed) REQ(g, t.isFixed(s.a.edge()) && t.isFixed(s.b.edge()), when << ": the parts of a fixed edge are fixed");
    g.label(fixed ? "split fixed" : "split");
  } else if (op == 4 && room) {
    Face f = pickFace(g, m);
    os << "insertBarycenter(" << f << ")";
    auto vc = t.vertexCoordinatesInTriangle(f);
    if (predicted(t, SurfacePoint(f, Vector3::constant(1. / 3))) < QMIN) return true;
    Vector2 c = (vc[0] + vc[1] + vc[2]) / 3;
    Vertex v = t.insertBarycenter(f);
    when = T.name + os.str();
    REQ(g, m.nVertices() == nV + 1 && v.degree() == 3, when << ": count");
    for (auto x : vc) {
      bool ok = false;
      for (Edge y : v.adjacentEdges()) ok = ok || std::fabs(norm(x - c) - t.edgeLengths[y]) < 1e-6 * W.scale;
      REQ(g, ok, when << ": edge lengths at the barycenter");
    }
    g.label("barycenter");
  } else if (op == 5 && room) {
    Face f = pickFace(g, m);
    // avoid circumcentres which fall on the boundary of a triangle within rounding
    TriOracle o = oracleOf(m, t.edgeLengths);
    for (Halfedge h : f.adjacentHalfedges())
      if (std::fabs((double)o.ang[h.getIndex()] - M_PI / 2) < .05) return true;
    if (minAng(t) < .15 || anySelfGlued(m)) return true;
    os << "insertCircumcenter(" << f << ")";
    Vertex v = t.insertCircumcenter(f);
    when = T.name + os.str();
    if (v == Vertex()) {
      REQ(g, T.log.nMut() == 0 && m.nVertices() == nV, when << ": nothing inserted but changed");
    } else
      REQ(g, m.nVertices() == nV + 1 && T.log.faceIns.size() + T.log.splits.size() == 1, when << ": count");
    g.label("circumcenter");
  } else if (op == 6) {
    std::vector<Vertex> cand;
    for (Vertex v : m.vertices())
      if (t.vertexLocations[v].type != SurfacePointType::Vertex) cand.push_back(v);
    Vertex v = (cand.empty() || g.chance(.15)) ? pickVertex(g, m) : g.pick(cand);
    bool orig = t.vertexLocations[v].type == SurfacePointType::Vertex, fix = t.isOnFixedEdge(v);
    os << "removeInsertedVertex(" << v << ")";
    if (!orig && !fix && minAng(t) < .1) return true;
    Face f = t.removeInsertedVertex(v);
    when = T.name + os.str();
    if (orig || fix) REQ(g, f == Face(), when << ": an original vertex or one on a fixed edge was removed");
    if (f != Face()) {
      REQ(g, m.nVertices() == nV - 1 && m.nFaces() == nF - 2 && v.isDead(), when << ": counts");
      g.label("removed vertex");
    } else
      REQ(g, m.nVertices() == nV, when << ": vertex count");
  } else if (op == 7) {
    t.flipToDelaunay();
    when = T.name + "flipToDelaunay";
    TriOracle o = oracleOf(m, t.edgeLengths);
    for (Edge e : m.edges()) {
      if (t.isFixed(e)) continue;
      Quad q = quadOf(t, e);
      if (q.comb) REQ(g, q.cotSum > -1e-3, when << ": " << e << " has cotan sum " << (double)q.cotSum);
    }
    REQ(g, m.nVertices() == nV, when);
    g.label("flipToDelaunay");
  } else if (op == 8 && room && nF < 60 && minAng(t) > .05 && !anySelfGlued(m)) {
    bool anyMark = false;
    for (Edge e : m.edges()) anyMark = anyMark || (T.markedLen > 0 && t.markedEdges[e]);
    // refinement need not terminate when fixed edges meet in small angles
    bool guaranteed = !anyMark && W.minInAng > M_PI / 3 + .01;
    size_t maxIns = g.coin() || !guaranteed ? g.range(0, 30) : INVALID_IND;
    double th = g.real(1, 25);
    double R = g.coin() ? std::numeric_limits<double>::infinity() : W.scale * g.real(.15, 1.);
    os << "delaunayRefine(" << th << "," << R << "," << (long)maxIns << ")";
    g.note("-> " + os.str());
    try {
      t.delaunayRefine(th, R, maxIns);
    } catch (std::runtime_error& e) {
      // an edge of a face which came to be glued to itself cannot be split
      if (std::string(e.what()).find("connectVertices") == std::string::npos || !anySelfGlued(m)) throw;
      g.label("refine: face glued to itself");
      return false;
    }
    when = T.name + os.str();
    size_t ins = T.log.faceIns.size() + T.log.splits.size();
    if (maxIns != INVALID_IND) REQ(g, ins <= maxIns, when << ": " << ins << " insertions");
    g.label("refine");
    if ((maxIns == INVALID_IND || ins < maxIns) && guaranteed) {
      TriOracle o = oracleOf(m, t.edgeLengths);
      for (Face f : m.faces()) {
        LD R2 = t.edgeLengths[f.halfedge().edge()] / (2 * sinl(o.ang[f.halfedge().next().next().getIndex()]));
        REQ(g, R2 <= R * (1 + 1e-4), when << ": circumradius " << (double)R2 << " of " << f);
        for (Halfedge h : f.adjacentHalfedges()) {
          if (h.next().next() == h.twin()) continue;
          REQ(g, o.ang[h.getIndex()] >= th * M_PI / 180 - 1e-4, when << ": angle " << (double)o.ang[h.getIndex()] * 180 / M_PI << " at " << h.vertex() << " after " << ins << " insertions");
        }
      }
      for (Edge e : m.edges())
        if (!t.isFixed(e)) {
          Quad q = quadOf(t, e);
          if (q.comb) REQ(g, q.cotSum > -1e-3, when << ": " << e << " is not Delaunay, cotan sum " << (double)q.cotSum);
        }
      g.label("refine: guarantees checked");
    }
  } else if (op == 9) {
    if (T.markedLen < 0) {
      EdgeData<bool> mk(m, false);
      double s = 0;
      double p = g.real(.02, .3);
      for (Edge e : m.edges())
        if (g.chance(p)) {
          mk[e] = true;
          s += t.edgeLengths[e];
        }
      t.setMarkedEdges(mk);
      T.markedLen = s;
      when = T.name + "setMarkedEdges";
      for (Edge e : m.edges()) REQ(g, t.isFixed(e) == (mk[e] || e.isBoundary()), when);
      g.label("marked edges");
    } else if (g.chance(.3)) {
      t.clearMarkedEdges();
      T.markedLen = -1;
      when = T.name + "clearMarkedEdges";
    }
  }
  g.note(os.str().empty() ? when : os.str());
  for (Log::Sp& s : T.log.splits) REQ(g, s.va == s.vb, when << ": split callback with two vertices");
  return minAng(t) > 1e-2;
}

static void history(G& g, bool integer, bool closed) {
  World W = makeWorld(g, false, 30, closed);
  Tri T = makeTri(g, W, integer);
  attach(T);
  checkIntrinsic(g, W, T, "constructor");
  queries(g, W, T, "constructor");
  for (Edge e : W.w.mesh->edges())
    REQ(g, T.t->edgeLengths[T.t->intrinsicMesh->edge(e.getIndex())] == (W.geo->requireEdgeLengths(), W.geo->edgeLengths[e]) || integer, "initial lengths");
  int n = g.range(1, 14);
  std::string when;
  for (int i = 0; i < n; i++) {
    bool go = step(g, W, T, when, true);
    if (!go) {
      g.label("ended: thin triangle");
      return;
    }
    checkIntrinsic(g, W, T, when);
    if (g.chance(.2)) {
      T.t->refreshQuantities();
      checkIntrinsic(g, W, T, when + ", refreshQuantities");
    }
    if (g.chance(.1)) {
      T.t->intrinsicMesh->compress();
      checkIntrinsic(g, W, T, when + ", compress");
    }
  }
  queries(g, W, T, "at the end");
  if (T.t->intrinsicMesh->nVertices() > W.w.mesh->nVertices()) g.nontrivial();
}

// ---------------------------------------------------------------- signposts and integer coordinates agree
static void lockstep(G& g) {
  World W = makeWorld(g, false, 24);
  Tri A = makeTri(g, W, false), B;
  B.integer = true;
  B.t.reset(new IntegerCoordinatesIntrinsicTriangulation(*W.w.man, *W.geo, 0.));
  int n = g.range(1, 14);
  for (int i = 0; i < n; i++) {
    ManifoldSurfaceMesh &a = *A.t->intrinsicMesh, &b = *B.t->intrinsicMesh;
    int op = (int)g.below(5);
    std::ostringstream os;
    if (op <= 1) {
      Edge e = pickEdge(g, a);
      Quad q = quadOf(*A.t, e);
      if (q.comb && (q.minNew < QMIN || std::fabs((double)q.s0 - M_PI) < .01 || std::fabs((double)q.s1 - M_PI) < .01 || std::fabs((double)q.cotSum) < 1e-3)) continue;
      bool r = op ? A.t->flipEdgeIfNotDelaunay(e) : A.t->flipEdgeIfPossible(e);
      bool s = op ? B.t->flipEdgeIfNotDelaunay(b.edge(e.getIndex())) : B.t->flipEdgeIfPossible(b.edge(e.getIndex()));
      os << "flip " << e;
      REQ(g, r == s, "flip of " << e << ": signpost " << r << " integer " << s << " (op " << op << ", cotan sum " << (double)q.cotSum << ")");
    } else if (op == 2) {
      SurfacePoint p = randPoint(g, a, (int)g.weighted({2, 1}));
      if (predicted(*A.t, p) < QMIN || (p.type == SurfacePointType::Edge && selfGlued(p.edge))) continue;
      SurfacePoint q = p;
      if (p.type == SurfacePointType::Face) {
        // the same point in the face of b
        q.face = b.face(p.face.getIndex());
        if (q.face.halfedge().getIndex() != p.face.halfedge().getIndex()) g.discard();
      } else {
        q.edge = b.edge(p.edge.getIndex());
        if (q.edge.halfedge().getIndex() != p.edge.halfedge().getIndex()) g.discard();
      }
      os << "insert " << p;
      A.t->insertVertex(p);
      B.t->insertVertex(q);
    } else if (op == 3) {
      Edge e = pickEdge(g, a);
      Halfedge h = g.coin() ? e.halfedge().twin() : e.halfedge();
      SurfacePoint p(h, g.real(.2, .8));
      double tt = h == e.halfedge() ? p.tEdge : 1 - p.tEdge;
      if (predicted(*A.t, p) < QMIN || selfGlued(e)) continue;
      os << "split " << h;
      Halfedge x = A.t->splitEdge(h, tt), y = B.t->splitEdge(b.halfedge(h.getIndex()), tt);
      REQ(g, x.getIndex() == y.getIndex(), "splitEdge(" << h << ") of signposts and integer coordinates return " << x << " and " << y);
    } else {
      if (minAng(*A.t) < .1) continue;
      A.t->flipToDelaunay();
      B.t->flipToDelaunay();
      os << "flipToDelaunay";
      std::vector<double> x, y;
      bool tie = false;
      for (Edge e : a.edges()) tie = tie || (!e.isBoundary() && std::fabs((double)quadOf(*A.t, e).cotSum) < 1e-3);
      for (Edge e : b.edges()) tie = tie || (!e.isBoundary() && std::fabs((double)quadOf(*B.t, e).cotSum) < 1e-3);
      if (tie) return;
      for (Edge e : a.edges()) x.push_back(A.t->edgeLengths[e]);
      for (Edge e : b.edges()) y.push_back(B.t->edgeLengths[e]);
      std::sort(x.begin(), x.end());
      std::sort(y.begin(), y.end());
      REQ(g, x.size() == y.size(), "edge counts");
      for (size_t k = 0; k < x.size(); k++) REQ_NEAR(g, x[k], y[k], 1e-5 * W.scale, "flipToDelaunay: the Delaunay triangulation of signposts and integer coordinates differs");
      return;
    }
    g.note(os.str());
    REQ(g, a.nEdges() == b.nEdges(), os.str() << ": edge counts differ");
    for (Edge e : a.edges()) REQ_NEAR(g, A.t->edgeLengths[e], B.t->edgeLengths[b.edge(e.getIndex())], 1e-5 * W.scale, os.str() << ": lengths of signposts and integer coordinates differ at " << e);
    for (Halfedge h : a.halfedges()) REQ(g, h.vertex().getIndex() == b.halfedge(h.getIndex()).vertex().getIndex(), os.str() << ": connectivity differs");
    if (minAng(*A.t) < .01) return;
  }
}

// ================================================================ C15
static Vector3 at(const SurfacePoint& p, const VertexData<Vector3>& x) { return p.interpolate(x); }

// planar position of a point on the intrinsic triangulation of a planar surface
static Vector3 planar(World& W, IntrinsicTriangulation& t, const SurfacePoint& p) {
  VertexData<Vector3> x(*t.intrinsicMesh);
  for (Vertex v : t.intrinsicMesh->vertices()) x[v] = at(t.vertexLocations[v], W.w.pos);
  return at(p, x);
}
// the lowest-dimensional element a point lies on up to rounding
static SurfacePoint snapped(SurfacePoint p) {
  const double eps = 1e-6;
  if (p.type == SurfacePointType::Face) {
    Halfedge h = p.face.halfedge();
    for (int i = 0; i < 3; i++, h = h.next()) {
      if (p.faceCoords[(i + 2) % 3] < eps) {
        p = SurfacePoint(h, p.faceCoords[(i + 1) % 3] / (p.faceCoords[i] + p.faceCoords[(i + 1) % 3]));
        break;
      }
    }
  }
  if (p.type == SurfacePointType::Edge) {
    if (p.tEdge < eps) p = SurfacePoint(p.edge.firstVertex());
    else if (p.tEdge > 1 - eps)
      p = SurfacePoint(p.edge.secondVertex());
  }
  return p;
}
static double segLen(SurfacePoint a, SurfacePoint b, const EdgeData<double>& len) {
  Face f = sharedFace(a, b);
  if (f == Face()) f = sharedFace(a = snapped(a), b = snapped(b));
  if (f == Face()) return -1;
  a = a.inFace(f);
  b = b.inFace(f);
  Vector3 l{len[f.halfedge().next().edge()], len[f.halfedge().next().next().edge()], len[f.halfedge().edge()]};
  return displacementLength(b.faceCoords - a.faceCoords, l);
}
static double sepOf(World& W, const SurfacePoint& a, const SurfacePoint& b) { return norm(at(a, W.w.pos) - at(b, W.w.pos)); }

// Signposts clean up the end of a trace by dropping crossings of edges at the target vertex, which takes for granted that
// a geodesic between adjacent vertices is the edge.
static bool multiEdges(SurfaceMesh& m) {
  std::set<std::pair<Vertex, Vertex>> seen;
  for (Edge e : m.edges()) {
    Vertex a = e.firstVertex(), b = e.secondVertex();
    if (a == b || !seen.insert(std::minmax(a, b)).second) return true;
  }
  return false;
}

static void checkPath(G& g, const std::vector<SurfacePoint>& p, const SurfacePoint& a, const SurfacePoint& b, double L, const EdgeData<double>& len, double tol, bool simple, const std::string& what) {
  std::ostringstream os;
  for (auto& x : p) os << " " << x;
  REQ(g, p.size() >= 2, what << ": path with " << p.size() << " points");
  auto close = [&](const SurfacePoint& x, const SurfacePoint& y) {
    double d = segLen(x, y, len);
    return d >= 0 && d <= tol;
  };
  REQ(g, close(p.front(), a), what << ": starts at " << p.front() << " instead of " << a << ";" << os.str());
  REQ(g, close(p.back(), b), what << ": ends at " << p.back() << " instead of " << b << ";" << os.str());
  double s = 0;
  for (size_t i = 0; i + 1 < p.size(); i++) {
    double d = segLen(p[i], p[i + 1], len);
    REQ(g, d >= 0, what << ": consecutive points without a common face;" << os.str());
    s += d;
  }
  bool ambiguous = multiEdges(*len.getMesh()); // surface points do not say which edge is meant
  if (simple && !ambiguous) REQ_NEAR(g, s, L, 10 * tol, what << ": length of the path;" << os.str());
}

static void tracing(G& g, World& W, Tri& T, const std::string& when, bool onlyIntrinsic = false) {
  IntrinsicTriangulation& t = *T.t;
  ManifoldSurfaceMesh& m = *t.intrinsicMesh;
  W.geo->requireEdgeLengths();
  double tol = 2e-5 * W.scale;
  EdgeData<std::vector<SurfacePoint>> all = t.traceAllIntrinsicEdgesAlongInput();
  for (Edge e : m.edges()) {
    for (int k = 0; k < 2; k++) {
      Halfedge h = k ? e.halfedge().twin() : e.halfedge();
      std::vector<SurfacePoint> p = t.traceIntrinsicHalfedgeAlongInput(h);
      std::ostringstream os;
      os << when << " traceIntrinsicHalfedgeAlongInput(" << h << ")";
      checkPath(g, p, t.vertexLocations[h.vertex()], t.vertexLocations[h.tipVertex()], t.edgeLengths[e], W.geo->edgeLengths, tol, true, os.str());
      if (k == 0) {
        REQ(g, all[e].size() == p.size(), os.str() << ": traceAllIntrinsicEdgesAlongInput has " << all[e].size() << " points instead of " << p.size());
        for (size_t i = 0; i < p.size(); i++) REQ(g, segLen(p[i], all[e][i], W.geo->edgeLengths) >= 0 && segLen(p[i], all[e][i], W.geo->edgeLengths) < tol, os.str() << ": differs from traceAllIntrinsicEdgesAlongInput");
      }
    }
  }
  if (onlyIntrinsic) return;
  EdgeData<std::vector<SurfacePoint>> allIn = t.traceAllInputEdgesAlongIntrinsic();
  for (Edge e : W.w.mesh->edges()) {
    for (int k = 0; k < 2; k++) {
      Halfedge h = k ? e.halfedge().twin() : e.halfedge();
      std::vector<SurfacePoint> p = t.traceInputHalfedgeAlongIntrinsic(h);
      std::ostringstream os;
      os << when << " traceInputHalfedgeAlongIntrinsic(" << h << ")";
      for (auto& x : p) REQ(g, (x.type == SurfacePointType::Vertex ? x.vertex.getMesh() : x.type == SurfacePointType::Edge ? x.edge.getMesh() : x.face.getMesh()) == &m, os.str() << ": a point is not on the intrinsic mesh");
      SurfacePoint a(m.vertex(h.vertex().getIndex())), b(m.vertex(h.tipVertex().getIndex()));
      checkPath(g, p, a, b, W.geo->edgeLengths[e], t.edgeLengths, tol, true, os.str());
      if (k == 0) {
        REQ(g, allIn[e].size() == p.size(), os.str() << ": traceAllInputEdgesAlongIntrinsic has " << allIn[e].size() << " points instead of " << p.size());
        for (size_t i = 0; i < p.size(); i++) REQ(g, segLen(p[i], allIn[e][i], t.edgeLengths) >= 0 && segLen(p[i], allIn[e][i], t.edgeLengths) < tol, os.str() << ": differs from traceAllInputEdgesAlongIntrinsic");
      }
    }
  }
}

static void subdivision(G& g, World& W, Tri& T, const std::string& when0) {
  // surface points cannot say which of several edges between two vertices is meant
  if (multiEdges(*T.t->intrinsicMesh) || multiEdges(*W.w.mesh)) {
    g.label("subdivision not checked: not a simplicial complex");
    return;
  }
  IntrinsicTriangulation& t = *T.t;
  std::string when = T.name + when0;
  CommonSubdivision& cs = t.getCommonSubdivision();
  ManifoldSurfaceMesh &A = *W.w.man, &B = *t.intrinsicMesh;
  REQ(g, &cs.meshA == &A && &cs.meshB == &B, when << ": meshes of the subdivision");
  REQ(g, &t.getCommonSubdivision() == &cs, when << ": recomputed without change");
  W.geo->requireEdgeLengths();
  double tol = 3e-5 * W.scale;
  size_t nTrans = 0;
  for (auto& p : cs.subdivisionPoints) {
    switch (p.intersectionType) {
    case CSIntersectionType::VERTEX_VERTEX: REQ(g, p.posA.type == SurfacePointType::Vertex && p.posB.type == SurfacePointType::Vertex, when); break;
    case CSIntersectionType::EDGE_TRANSVERSE:
      REQ(g, p.posA.type == SurfacePointType::Edge && p.posB.type == SurfacePointType::Edge, when);
      nTrans++;
      break;
    case CSIntersectionType::EDGE_PARALLEL: REQ(g, p.posA.type == SurfacePointType::Edge && p.posB.type == SurfacePointType::Edge, when); break;
    case CSIntersectionType::FACE_VERTEX: REQ(g, p.posA.type == SurfacePointType::Face && p.posB.type == SurfacePointType::Vertex, when); break;
    case CSIntersectionType::EDGE_VERTEX: REQ(g, p.posA.type == SurfacePointType::Edge && p.posB.type == SurfacePointType::Vertex, when); break;
    }
    if (p.posB.type == SurfacePointType::Vertex) {
      double d = segLen(p.posA, t.vertexLocations[p.posB.vertex], W.geo->edgeLengths);
      REQ(g, d >= 0 && d < tol, when << ": location of " << p.posB << " in the subdivision");
    }
  }
  if (nTrans) g.label("transverse crossings");
  // points along edges
  auto realPts = [&](const std::vector<CommonSubdivisionPoint*>& v) {
    std::vector<CommonSubdivisionPoint*> r;
    for (auto* p : v)
      if (p->intersectionType != CSIntersectionType::EDGE_PARALLEL) r.push_back(p);
    return r;
  };
  std::set<const CommonSubdivisionPoint*> own;
  for (auto& p : cs.subdivisionPoints) own.insert(&p);
  size_t seenA = 0, seenB = 0;
  for (Edge e : A.edges()) {
    auto& P = cs.pointsAlongA[e];
    for (auto* p : P) REQ(g, p && own.count(p), when << ": foreign point along " << e);
    auto r = realPts(P);
    REQ(g, r.size() >= 2 && r.front()->posA == SurfacePoint(e.firstVertex()) && r.back()->posA == SurfacePoint(e.secondVertex()), when << ": ends of input " << e);
    REQ(g, cs.intersectionsA(e) == r.size() - 2, when << ": intersectionsA(" << e << ") = " << cs.intersectionsA(e) << ", there are " << r.size() - 2);
    double last = 0, len = 0;
    for (size_t i = 0; i + 1 < r.size(); i++) {
      double d = segLen(r[i]->posB, r[i + 1]->posB, t.edgeLengths);
      REQ(g, d >= 0, when << ": consecutive points along input " << e << " share no intrinsic face");
      len += d;
    }
    for (size_t i = 1; i + 1 < r.size(); i++) {
      REQ(g, r[i]->posA.type == SurfacePointType::Edge && r[i]->posA.edge == e, when << ": point along input " << e << " lies on " << r[i]->posA);
      REQ(g, r[i]->posA.tEdge > last - 1e-7, when << ": points along input " << e << " not sorted");
      last = r[i]->posA.tEdge;
      if (r[i]->intersectionType == CSIntersectionType::EDGE_TRANSVERSE) seenA++;
    }
    if (!multiEdges(B)) REQ_NEAR(g, len, W.geo->edgeLengths[e], 10 * tol, when << ": length of input " << e << " along the intrinsic triangulation");
    // each uncrossed segment between two intrinsic vertices is an edge of both and carries a marker
    for (size_t i = 0; i + 1 < P.size(); i++)
      REQ(g, !(P[i]->posB.type == SurfacePointType::Vertex && P[i + 1]->posB.type == SurfacePointType::Vertex), when << ": no parallel-edge record between consecutive vertices along input " << e << (P.size() == 2 ? " (entire edge)" : " (part)"));
    for (size_t i = 0; i < P.size(); i++)
      if (P[i]->intersectionType == CSIntersectionType::EDGE_PARALLEL) {
        REQ(g, i > 0 && i + 1 < P.size() && P[i]->posA.edge == e, when << ": parallel record on " << e);
        Edge eb = P[i]->posB.edge;
        std::set<Vertex> x{eb.firstVertex(), eb.secondVertex()}, y{P[i - 1]->posB.vertex, P[i + 1]->posB.vertex};
        REQ(g, x == y, when << ": the parallel record of input " << e << " names an intrinsic edge with other ends");
        auto& Q = cs.pointsAlongB[eb];
        REQ(g, Q.size() == 3 && Q[1] == P[i], when << ": the parallel record is not along intrinsic " << eb);
        auto tA = [&](CommonSubdivisionPoint* p, double d) { return p->posA.type == SurfacePointType::Edge ? p->posA.tEdge : d; };
        double seg = (tA(P[i + 1], 1) - tA(P[i - 1], 0)) * W.geo->edgeLengths[e];
        REQ_NEAR(g, t.edgeLengths[eb], seg, 10 * tol, when << ": length of the shared segment of input " << e);
        g.label("shared segment");
      }
    auto path = cs.getHalfedgePathAonB(e.halfedge()), rev = cs.getHalfedgePathAonB(e.halfedge().twin());
    REQ(g, path.size() == P.size() && rev.size() == P.size(), when << ": getHalfedgePathAonB");
    for (size_t i = 0; i < P.size(); i++) REQ(g, path[i] == P[i]->posB && rev[P.size() - 1 - i] == P[i]->posB, when << ": getHalfedgePathAonB");
  }
  for (Edge e : B.edges()) {
    auto& P = cs.pointsAlongB[e];
    for (auto* p : P) REQ(g, p && own.count(p), when << ": foreign point along intrinsic " << e);
    auto r = realPts(P);
    REQ(g, r.size() >= 2 && r.front()->posB == SurfacePoint(e.firstVertex()) && r.back()->posB == SurfacePoint(e.secondVertex()), when << ": ends of intrinsic " << e);
    REQ(g, cs.intersectionsB(e) == r.size() - 2, when << ": intersectionsB(" << e << ")");
    double last = 0, len = 0;
    for (size_t i = 0; i + 1 < r.size(); i++) {
      double d = segLen(r[i]->posA, r[i + 1]->posA, W.geo->edgeLengths);
      REQ(g, d >= 0, when << ": consecutive points along intrinsic " << e << " share no input face");
      len += d;
    }
    REQ_NEAR(g, len, t.edgeLengths[e], 10 * tol, when << ": length of intrinsic " << e << " along the input");
    for (size_t i = 1; i + 1 < r.size(); i++) {
      REQ(g, r[i]->intersectionType == CSIntersectionType::EDGE_TRANSVERSE && r[i]->posB.edge == e && r[i]->posB.tEdge > last - 1e-6, when << ": points along intrinsic " << e << " at " << r[i]->posB.tEdge << " after " << last);
      last = r[i]->posB.tEdge;
      seenB++;
    }
    auto path = cs.getHalfedgePathBonA(e.halfedge()), rev = cs.getHalfedgePathBonA(e.halfedge().twin());
    REQ(g, path.size() == P.size() && rev.size() == P.size(), when << ": getHalfedgePathBonA");
    for (size_t i = 0; i < P.size(); i++) REQ(g, path[i] == P[i]->posA && rev[P.size() - 1 - i] == P[i]->posA, when << ": getHalfedgePathBonA");
  }
  REQ(g, seenA == nTrans && seenB == nTrans, when << ": crossings " << nTrans << ", along input edges " << seenA << ", along intrinsic edges " << seenB);

  // mesh of the subdivision
  auto cnt = cs.elementCounts();
  bool tri = g.coin();
  cs.constructMesh(false, false);
  ManifoldSurfaceMesh* M = cs.mesh.get();
  checkStructure(g, *M, when + " subdivision mesh");
  REQ(g, std::get<0>(cnt) == M->nVertices() && std::get<1>(cnt) == M->nEdges() && std::get<2>(cnt) == M->nFaces(), when << ": elementCounts (" << std::get<0>(cnt) << "," << std::get<1>(cnt) << "," << std::get<2>(cnt) << "), the mesh has " << M->nVertices() << "," << M->nEdges() << "," << M->nFaces());
  REQ(g, cs.nVertices() == M->nVertices() && cs.nEdges() == M->nEdges() && cs.nFaces() == M->nFaces(), when << ": nVertices/nEdges/nFaces");
  REQ(g, chiOf(*M) == W.chi && M->nBoundaryLoops() == W.bl, when << ": topology of the subdivision");
  auto simple = cs.buildSimpleMesh();
  REQ(g, simple->nVertices() == M->nVertices() && simple->nFaces() == M->nFaces(), when << ": buildSimpleMesh");
  if (tri) {
    cs.triangulateMesh();
    M = cs.mesh.get();
    REQ(g, M->isTriangular() && chiOf(*M) == W.chi, when << ": triangulateMesh");
    checkStructure(g, *M, when + " triangulated subdivision mesh");
  }
  REQ(g, M->nVertices() == std::get<0>(cnt), when);
  std::vector<double> areaOfA(A.nFaces(), 0), areaOfB(B.nFaces(), 0);
  EdgeData<double> lA = cs.interpolateEdgeLengthsA(W.geo->edgeLengths), lB = cs.interpolateEdgeLengthsB(t.edgeLengths);
  for (Edge e : M->edges()) if (!multiEdges(A) && !multiEdges(B)) REQ_NEAR(g, lA[e], lB[e], 10 * tol, when << ": interpolateEdgeLengthsA and B differ");
  for (Face f : M->faces()) {
    Face fa = cs.sourceFaceA[f], fb = cs.sourceFaceB[f];
    REQ(g, fa != Face() && fb != Face() && fa.getMesh() == &A && fb.getMesh() == &B, when << ": source faces of " << f);
    for (Vertex v : f.adjacentVertices()) {
      CommonSubdivisionPoint* p = cs.sourcePoints[v];
      REQ(g, p && own.count(p), when << ": sourcePoints");
      REQ(g, checkAdjacent(p->posA, SurfacePoint(fa, Vector3{1, 0, 0})) && checkAdjacent(p->posB, SurfacePoint(fb, Vector3{1, 0, 0})), when << ": " << p->posA << " / " << p->posB << " is not in the source faces " << fa << "/" << fb);
    }
    if (M->isTriangular()) {
      double l[3];
      int i = 0;
      for (Edge e : f.adjacentEdges()) l[i++] = lA[e];
      double s = (l[0] + l[1] + l[2]) / 2, a = std::sqrt(std::max(0., s * (s - l[0]) * (s - l[1]) * (s - l[2])));
      areaOfA[fa.getIndex()] += a;
      areaOfB[fb.getIndex()] += a;
    }
    // orientation of the piece agrees with that of both source faces
    auto area2 = [&](Face F, bool inA) {
      std::vector<Vector3> b;
      for (Vertex v : f.adjacentVertices()) b.push_back((inA ? cs.sourcePoints[v]->posA : cs.sourcePoints[v]->posB).inFace(F).faceCoords);
      double s = 0;
      for (size_t i = 0; i < b.size(); i++) s += b[i].y * b[(i + 1) % b.size()].z - b[i].z * b[(i + 1) % b.size()].y;
      return s;
    };
    auto repeats = [](Face F) {
      std::set<Vertex> vs;
      for (Vertex v : F.adjacentVertices()) vs.insert(v);
      return vs.size() < 3;
    };
    if (!repeats(fa) && !repeats(fb)) REQ(g, area2(fa, true) > -1e-6 && area2(fb, false) > -1e-6, when << ": orientation of a face of the subdivision " << area2(fa, true) << " " << area2(fb, false));
  }
  if (M->isTriangular()) {
    TriOracle oa = oracleOf(A, W.geo->edgeLengths), ob = oracleOf(B, t.edgeLengths);
    for (Face f : A.faces()) REQ_NEAR(g, areaOfA[f.getIndex()], (double)oa.A(f), 1e-3 * W.area, when << ": area of the pieces of input " << f);
    for (Face f : B.faces()) REQ_NEAR(g, areaOfB[f.getIndex()], (double)ob.A(f), 1e-3 * W.area, when << ": area of the pieces of intrinsic " << f);
  }
  // parent faces
  {
    std::vector<std::set<Face>> par(B.nFaces());
    for (Face f : M->faces()) par[cs.sourceFaceB[f].getIndex()].insert(cs.sourceFaceA[f]);
    for (Face f : B.faces()) {
      Face p = t.getParentFace(f);
      // getParentFace looks at the corners only: the sides may still run through other faces
      bool straight = p != Face();
      for (Halfedge h : f.adjacentHalfedges())
        if (p != Face()) {
          auto in = [&](Vertex v) { return SurfacePoint(p, t.vertexLocations[v].inFace(p).faceCoords); };
          double d = segLen(in(h.vertex()), in(h.tipVertex()), W.geo->edgeLengths);
          straight = straight && std::fabs(d - t.edgeLengths[h.edge()]) < 1e-4 * W.scale;
        }
      if (straight) REQ(g, par[f.getIndex()].size() == 1 && *par[f.getIndex()].begin() == p, when << ": getParentFace(" << f << ") = " << p << " but the face is not contained in it");
      bool allOrig = true;
      for (Vertex v : f.adjacentVertices()) allOrig = allOrig && t.vertexLocations[v].type == SurfacePointType::Vertex;
      if (p == Face() && !allOrig) REQ(g, par[f.getIndex()].size() > 1, when << ": getParentFace(" << f << ") did not find " << *par[f.getIndex()].begin());
    }
  }
  // interpolation
  VertexData<double> dA(A), dB(B);
  for (Vertex v : A.vertices()) dA[v] = g.jitter(1);
  for (Vertex v : B.vertices()) dB[v] = g.jitter(1);
  SparseMatrix<double> PA = cs.interpolationMatrixA(), PB = cs.interpolationMatrixB();
  Vector<double> xa = PA * dA.toVector(), xb = PB * dB.toVector();
  REQ(g, (size_t)PA.rows() == M->nVertices() && (size_t)PA.cols() == A.nVertices() && (size_t)PB.rows() == M->nVertices() && (size_t)PB.cols() == B.nVertices(), when << ": size of the interpolation matrices");
  VertexData<double> ia = cs.interpolateAcrossA(dA), ib = cs.interpolateAcrossB(dB);
  size_t k = 0;
  for (Vertex v : M->vertices()) {
    double wa = cs.sourcePoints[v]->posA.interpolate(dA), wb = cs.sourcePoints[v]->posB.interpolate(dB);
    REQ_NEAR(g, ia[v], wa, 1e-9, when << ": interpolateAcrossA");
    REQ_NEAR(g, ib[v], wb, 1e-9, when << ": interpolateAcrossB");
    REQ_NEAR(g, xa(k), wa, 1e-9, when << ": interpolationMatrixA");
    REQ_NEAR(g, xb(k), wb, 1e-9, when << ": interpolationMatrixB");
    k++;
  }
  FaceData<int> fA(A), fB(B);
  for (Face f : A.faces()) fA[f] = (int)g.below(1000);
  for (Face f : B.faces()) fB[f] = (int)g.below(1000);
  FaceData<int> cA = cs.copyFromA(fA), cB = cs.copyFromB(fB);
  for (Face f : M->faces()) REQ(g, cA[f] == fA[cs.sourceFaceA[f]] && cB[f] == fB[cs.sourceFaceB[f]], when << ": copyFromA/copyFromB");
  // the intrinsic vertices sampled from the input
  VertexData<double> sm = t.sampleFromInput(dA), back = t.restrictToInput(sm);
  for (Vertex v : B.vertices()) REQ_NEAR(g, sm[v], t.vertexLocations[v].interpolate(dA), 1e-9, when << ": sampleFromInput");
  for (Vertex v : A.vertices()) REQ_NEAR(g, back[v], dA[v], 1e-9, when << ": restrictToInput");

  // equivalent points against the subdivision: pick a face of it, a point in it, and compare
  for (int i = 0; i < 3; i++) {
    Face f = pickFace(g, *M);
    SurfacePoint pa(cs.sourceFaceA[f], Vector3::zero()), pb(cs.sourceFaceB[f], Vector3::zero());
    double tot = 0;
    for (Vertex v : f.adjacentVertices()) {
      double w = .2 + g.unit();
      pa.faceCoords += w * cs.sourcePoints[v]->posA.inFace(pa.face).faceCoords;
      pb.faceCoords += w * cs.sourcePoints[v]->posB.inFace(pb.face).faceCoords;
      tot += w;
    }
    pa.faceCoords /= tot;
    pb.faceCoords /= tot;
    SurfacePoint q = t.equivalentPointOnInput(pb);
    double d = segLen(q, pa, W.geo->edgeLengths);
    REQ(g, norm(at(q, W.w.pos) - at(pa, W.w.pos)) < 10 * tol, when << ": equivalentPointOnInput(" << pb << ") = " << q << ", the common subdivision says " << pa << " (in a common face: " << d << ")");
    if (!T.integer) {
      SurfacePoint r = t.equivalentPointOnIntrinsic(pa);
      double d2 = segLen(r, pb, t.edgeLengths);
      if (!(d2 >= 0 && d2 < 10 * tol)) {
        // may be on the other side of an edge
        SurfacePoint q2 = t.equivalentPointOnInput(r);
        REQ(g, norm(at(q2, W.w.pos) - at(pa, W.w.pos)) < 20 * tol, when << ": equivalentPointOnIntrinsic(" << pa << ") = " << r << ", the common subdivision says " << pb);
      }
    }
  }
  for (Vertex v : B.vertices()) {
    SurfacePoint q = t.equivalentPointOnInput(SurfacePoint(v));
    REQ(g, q == t.vertexLocations[v], when << ": equivalentPointOnInput of a vertex");
  }
  // points on edges
  {
    Edge e = pickEdge(g, B);
    double s = g.real(.1, .9);
    SurfacePoint q = t.equivalentPointOnInput(SurfacePoint(e, s));
    auto r = realPts(cs.pointsAlongB[e]);
    auto tB = [&](size_t i) { return i == 0 ? 0. : i + 1 == r.size() ? 1. : r[i]->posB.tEdge; };
    size_t i = 0;
    while (i + 2 < r.size() && tB(i + 1) < s) i++;
    Vector3 x0 = at(r[i]->posA, W.w.pos), x1 = at(r[i + 1]->posA, W.w.pos);
    double u = (s - tB(i)) / std::max(1e-12, tB(i + 1) - tB(i));
    Vector3 want = (1 - u) * x0 + u * x1;
    REQ(g, norm(at(q, W.w.pos) - want) < 20 * tol, when << ": equivalentPointOnInput(" << e << ", " << s << ") = " << q << " at distance " << norm(at(q, W.w.pos) - want) << " of the point on the common subdivision");
  }
}

static void transfer(G& g, World& W, Tri& T, const std::string& when0) {
  IntrinsicTriangulation& t = *T.t;
  std::string when = T.name + when0;
  CommonSubdivision& cs = t.getCommonSubdivision();
  ManifoldSurfaceMesh &A = *W.w.man, &B = *t.intrinsicMesh;
  bool byGeom = g.coin() && W.geo == W.w.vpg.get();
  std::unique_ptr<AttributeTransfer> X;
  if (byGeom) X.reset(new AttributeTransfer(cs, *W.w.vpg));
  else
    X.reset(new AttributeTransfer(t));
  VertexData<double> dA(A), dB(B), one(A, 1.), oneB(B, 1.);
  for (Vertex v : A.vertices()) dA[v] = g.jitter(1);
  for (Vertex v : B.vertices()) dB[v] = g.jitter(1);
  VertexData<double> ab = X->transferAtoB(dA, TransferMethod::Pointwise), ba = X->transferBtoA(dB, TransferMethod::Pointwise);
  for (Vertex v : B.vertices()) REQ_NEAR(g, ab[v], t.vertexLocations[v].interpolate(dA), 1e-7, when << ": pointwise transfer to the intrinsic triangulation");
  for (Vertex v : A.vertices()) REQ_NEAR(g, ba[v], dB[B.vertex(v.getIndex())], 1e-9, when << ": pointwise transfer to the input");
  // independent Galerkin mass matrix on the subdivision
  EdgeData<double> l = cs.interpolateEdgeLengthsA(W.geo->edgeLengths);
  REQ(g, cs.mesh->isTriangular(), when << ": the subdivision is not triangulated");
  size_t n = cs.mesh->nVertices();
  Eigen::MatrixXd M = Eigen::MatrixXd::Zero(n, n);
  VertexData<size_t> ind = cs.mesh->getVertexIndices();
  for (Face f : cs.mesh->faces()) {
    double q[3];
    int i = 0;
    for (Edge e : f.adjacentEdges()) q[i++] = l[e];
    double s = (q[0] + q[1] + q[2]) / 2, a = std::sqrt(std::max(0., s * (s - q[0]) * (s - q[1]) * (s - q[2])));
    for (Vertex u : f.adjacentVertices())
      for (Vertex v : f.adjacentVertices()) M(ind[u], ind[v]) += (u == v ? 2 : 1) * a / 12;
  }
  Eigen::MatrixXd PA(cs.interpolationMatrixA()), PB(cs.interpolationMatrixB());
  auto solve = [&](const Eigen::MatrixXd& P, const Eigen::VectorXd& y) -> Eigen::VectorXd { return (P.transpose() * M * P).ldlt().solve(P.transpose() * M * y); };
  Eigen::VectorXd wB = solve(PB, PA * dA.toVector()), wA = solve(PA, PB * dB.toVector());
  int rounds = g.range(1, 2);
  for (int k = 0; k < rounds; k++) {
    VertexData<double> lb = X->transferAtoB(dA, TransferMethod::L2), la = X->transferBtoA(dB, TransferMethod::L2);
    // compare in the L2 norm of the surface (thin triangles make the values themselves ill-conditioned)
    auto err = [&](const Eigen::MatrixXd& P, Eigen::VectorXd d) { Eigen::VectorXd e = P * d; return std::sqrt(std::max(0., e.dot(M * e)) / W.area); };
    REQ_NEAR(g, err(PB, lb.toVector() - wB), 0., 2e-3, when << ": L2 transfer to the intrinsic triangulation is not the best approximation (byGeom=" << byGeom << ")");
    REQ_NEAR(g, err(PA, la.toVector() - wA), 0., 2e-3, when << ": L2 transfer to the input is not the best approximation");
    VertexData<double> cb = X->transferAtoB(one, TransferMethod::L2), ca = X->transferBtoA(oneB, TransferMethod::L2);
    for (Vertex v : B.vertices()) REQ_NEAR(g, cb[v], 1., 1e-4, when << ": L2 transfer of a constant to the intrinsic triangulation");
    for (Vertex v : A.vertices()) REQ_NEAR(g, ca[v], 1., 1e-4, when << ": L2 transfer of a constant to the input");
  }
  VertexData<double> f1 = transferAtoB(t, dA, TransferMethod::Pointwise), f2 = transferBtoA(t, dB, TransferMethod::Pointwise);
  for (Vertex v : B.vertices()) REQ_NEAR(g, f1[v], ab[v], 1e-12, when << ": one-off transfer");
  for (Vertex v : A.vertices()) REQ_NEAR(g, f2[v], ba[v], 1e-12, when << ": one-off transfer");
}

static void flatChecks(G& g, World& W, Tri& T, const std::string& when0) {
  IntrinsicTriangulation& t = *T.t;
  std::string when = T.name + when0;
  ManifoldSurfaceMesh& m = *t.intrinsicMesh;
  VertexData<Vector3> x(m);
  for (Vertex v : m.vertices()) x[v] = at(t.vertexLocations[v], W.w.pos);
  double tol = 2e-5 * W.scale;
  for (Edge e : m.edges()) REQ_NEAR(g, norm(x[e.firstVertex()] - x[e.secondVertex()]), t.edgeLengths[e], tol, when << ": length of " << e << " and the distance of its ends in the plane (" << t.vertexLocations[e.firstVertex()] << ", " << t.vertexLocations[e.secondVertex()] << ")");
  for (Face f : m.faces()) {
    std::vector<Vector3> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(x[v]);
    REQ(g, cross(p[1] - p[0], p[2] - p[0]).z > 0, when << ": " << f << " is inverted in the plane");
  }
  for (int i = 0; i < 3; i++) {
    SurfacePoint p = randPoint(g, m);
    SurfacePoint q = t.equivalentPointOnInput(p);
    REQ(g, norm(at(p, x) - at(q, W.w.pos)) < 5 * tol, when << ": equivalentPointOnInput(" << p << ") = " << q << " is off by " << norm(at(p, x) - at(q, W.w.pos)) << " (scale " << W.scale << ")");
    if (!T.integer) {
      SurfacePoint a = randPoint(g, *W.w.mesh);
      SurfacePoint b = t.equivalentPointOnIntrinsic(a);
      REQ(g, norm(at(b, x) - at(a, W.w.pos)) < 5 * tol, when << ": equivalentPointOnIntrinsic(" << a << ") = " << b << " is off by " << norm(at(b, x) - at(a, W.w.pos)));
    }
  }
}

// Signposts locate inserted vertices in floating point: a vertex inserted on an interior input edge lands in one of the
// faces next to it, on one side or the other. Everything that depends on the side is undefined then.
static bool onInputEdge(World& W, Tri& T) {
  if (T.integer) return false;
  for (Vertex v : T.t->intrinsicMesh->vertices()) {
    const SurfacePoint& p = T.t->vertexLocations[v];
    if (p.type == SurfacePointType::Edge) return true; // the trace of that edge runs through the vertex
    if (p.type == SurfacePointType::Face && std::min({p.faceCoords.x, p.faceCoords.y, p.faceCoords.z}) < 1e-4) return true;
  }
  return false;
}

// an intrinsic edge which passes (almost) through a vertex of the input
static bool throughVertex(World& W, Tri& T) {
  if (T.integer) return false;
  for (Edge e : T.t->intrinsicMesh->edges()) {
    std::vector<SurfacePoint> p = T.t->traceIntrinsicHalfedgeAlongInput(e.halfedge());
    for (size_t i = 1; i + 1 < p.size(); i++)
      if (p[i].type == SurfacePointType::Edge && std::min(p[i].tEdge, 1 - p[i].tEdge) < 1e-3) return true;
  }
  return false;
}

static void correspondence(G& g, bool integer, bool flat) {
  World W = makeWorld(g, flat, flat ? 20 : 16, false, .2);
  Tri T = makeTri(g, W, integer);
  attach(T);
  int n = g.range(0, 8);
  std::string when = "constructor";
  for (int i = 0; i < n; i++) {
    Face cf;
    bool go = step(g, W, T, when, T.t->intrinsicMesh->nFaces() < 25);
    if (!go) {
      g.label("ended: thin triangle");
      return;
    }
    if (flat) flatChecks(g, W, T, when);
    if (onInputEdge(W, T)) {
      if (flat && !multiEdges(*T.t->intrinsicMesh) && !throughVertex(W, T)) tracing(g, W, T, T.name + when, true);
      g.label("signposts: vertex on an input edge");
      continue;
    }
    if (!integer && (multiEdges(*T.t->intrinsicMesh) || throughVertex(W, T))) continue;
    int c = (int)g.weighted({6, 1, 1, 1});
    if (c == 1) {
      subdivision(g, W, T, when);
      if (flat) flatChecks(g, W, T, when + ", subdivision");
    } else if (c == 2)
      tracing(g, W, T, when);
    else if (c == 3)
      T.t->getCommonSubdivision();
  }
  checkIntrinsic(g, W, T, "at the end");
  if (onInputEdge(W, T)) return;
  if (!integer && multiEdges(*T.t->intrinsicMesh)) {
    g.label("signposts: not a simplicial complex, not traced");
    return;
  }
  if (throughVertex(W, T)) {
    g.label("signposts: edge through a vertex, not traced");
    return;
  }
  tracing(g, W, T, T.name + "at the end");
  subdivision(g, W, T, "at the end");
  tracing(g, W, T, T.name + "with subdivision");
  if (!multiEdges(*T.t->intrinsicMesh) && !multiEdges(*W.w.mesh) && g.coin()) transfer(g, W, T, "at the end");
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C14",
                   "triangulated surfaces (closed and with boundary, any genus, scale 1e-4..1e4, by positions or lengths) under random histories of up to 14 flips, insertions, "
                   "splits, removals, Delaunay flips and refinements, marking of edges; all invariants after every operation; non-trivial: more than 4 faces",
                   {{"signpost", [](G& g) { history(g, false, false); }, 6000, 60000},
                    {"signpost-closed", [](G& g) { history(g, false, true); }, 2000, 40000},
                    {"integer", [](G& g) { history(g, true, false); }, 6000, 60000},
                    {"integer-closed", [](G& g) { history(g, true, true); }, 2000, 40000},
                    {"lockstep", lockstep, 4000, 50000}},
                   {"triangles keep angles above 0.01 (operations predicted to create thinner ones are skipped, histories which do anyway end)"}});
  specs.push_back({"C15",
                   "intrinsic triangulations after random histories over planar surfaces (exact oracle: the plane) and curved ones (oracle: the common subdivision, whose two sides are compared with each other); "
                   "tracing in both directions, equivalent points, common subdivision, transfer; non-trivial: more than 4 faces",
                   {{"signpost-planar", [](G& g) { correspondence(g, false, true); }, 3500, 60000},
                    {"signpost", [](G& g) { correspondence(g, false, false); }, 3500, 60000},
                    {"integer-planar", [](G& g) { correspondence(g, true, true); }, 3500, 60000},
                    {"integer", [](G& g) { correspondence(g, true, false); }, 3500, 60000}},
                   {"triangles keep angles above 0.01"}});
  return pbt::run(argc, argv, specs);
}
