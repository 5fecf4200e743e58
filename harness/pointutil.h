// worlds with a triangle mesh, points on it, and a tracer which unfolds triangles in long double
#pragma once
#include "geomutil.h"

#include "geometrycentral/surface/surface_point.h"

namespace mg {
struct World {
  Geo w;
  std::unique_ptr<EdgeLengthGeometry> elg;
  IntrinsicGeometryInterface* geo = nullptr;
  ManifoldSurfaceMesh* m = nullptr;
  double scale = 1;
  bool delta = false;
};

inline World makeWorld(G& g, double minAng) {
  World W;
  if (g.chance(.3)) {
    Glued q = genGlued(g, 12, true);
    if (q.selfEdge) g.discard();
    W.m = new ManifoldSurfaceMesh(q.polys, q.twins);
    W.w.mesh.reset(W.m);
    int k = g.range(0, 4);
    for (int i = 0; i < k; i++) W.m->flip(pickEdge(g, *W.m), false);
    EdgeData<double> len(*W.m);
    double sc = g.chance(.3) ? std::pow(10., g.jitter(4)) : 1.;
    double hi = g.real(1, 1.7);
    for (Edge e : W.m->edges()) len[e] = sc * g.real(1, hi);
    W.elg.reset(new EdgeLengthGeometry(*W.m, len));
    W.geo = W.elg.get();
    W.scale = sc;
    W.delta = true;
    g.note(str(q.polys), " flips=", k, " scale=", sc);
    if (q.polys.size() > 2) g.nontrivial();
    g.label("Delta-complex");
  } else {
    GenOpts o;
    o.tri = true;
    o.maxFaces = 30;
    W.w = genTriGeo(g, o, true, minAng, 4);
    W.m = W.w.man;
    W.geo = W.w.vpg.get();
    W.scale = W.w.scale;
    if (g.chance(.3)) {
      EdgeData<double> l(*W.m);
      W.w.vpg->requireEdgeLengths();
      for (Edge e : W.m->edges()) l[e] = W.w.vpg->edgeLengths[e];
      W.w.vpg->unrequireEdgeLengths();
      W.elg.reset(new EdgeLengthGeometry(*W.m, l));
      W.geo = W.elg.get();
      g.label("edge length input");
    }
  }
  return W;
}
inline TriOracle oracle(World& W) {
  if (W.elg) return oracleOf(*W.m, W.elg->inputEdgeLengths);
  return oracleOf(*W.m, W.w.pos);
}

inline Vector3 genBary(G& g, bool interior = true) {
  double a = g.real(.02, 1), b = g.real(.02, 1), c = g.real(.02, 1);
  if (!interior && g.chance(.3)) {
    int z = (int)g.below(3);
    (z == 0 ? a : z == 1 ? b : c) = 0;
    if (g.chance(.4)) (z == 0 ? b : z == 1 ? c : a) = 0;
  }
  double s = a + b + c;
  return Vector3{a / s, b / s, c / s};
}

inline SurfacePoint genPoint(G& g, SurfaceMesh& m, bool ends = true) {
  switch (g.below(3)) {
  case 0: return SurfacePoint(pickVertex(g, m));
  case 1: {
    double t = ends && g.chance(.2) ? (double)g.below(2) : g.real(.03, .97);
    return SurfacePoint(pickEdge(g, m), t);
  }
  default: return SurfacePoint(pickFace(g, m), genBary(g, !ends));
  }
}

// ================================================================ C16
struct Ref {
  std::vector<std::pair<Halfedge, LD>> crossings; // halfedge left, parameter along it
  bool stopped = false;                           // at a boundary or barrier edge
  Face f;                                         // last face
  LC dir;                                         // in the frame of the last face
  std::vector<LC> dirs;                           // direction (frame of the face left) at each crossing
  std::vector<LD> dist;                           // distance travelled at each crossing
  LC end;                                         // in the frame of the last face
  LD len = 0;
  LD margin = 1; // closeness of crossings to vertices, of the end to edges, of directions to edges
};

inline void corners(const TriOracle& o, Face f, Halfedge h[3], LC p[3]) {
  h[0] = f.halfedge();
  h[1] = h[0].next();
  h[2] = h[1].next();
  p[0] = 0;
  p[1] = o.vecInFace(h[0]);
  p[2] = p[1] + o.vecInFace(h[1]);
}
inline LD crs(LC a, LC b) { return a.real() * b.imag() - a.imag() * b.real(); }

inline Vector3 baryOf(const TriOracle& o, Face f, LC x) {
  Halfedge h[3];
  LC p[3];
  corners(o, f, h, p);
  LD A = crs(p[1] - p[0], p[2] - p[0]);
  return Vector3{(double)(crs(p[1] - x, p[2] - x) / A), (double)(crs(p[2] - x, p[0] - x) / A), (double)(crs(p[0] - x, p[1] - x) / A)};
}

// trace from position x in face f (entered through `from`, or the vertex opposite of which is `fromV`)
inline void run(const TriOracle& o, Ref& r, Face f, LC x, LC d, LD remaining, Halfedge from, Halfedge fromCorner,
                const EdgeData<bool>* barrier, size_t limit) {
  r.len = 0;
  for (;;) {
    Halfedge h[3];
    LC p[3];
    corners(o, f, h, p);
    LD best = 1e300, bs = 0;
    int bi = -1;
    for (int i = 0; i < 3; i++) {
      if (h[i] == from) continue;
      if (fromCorner != Halfedge() && h[i] != fromCorner.next()) continue;
      LC e = p[(i + 1) % 3] - p[i];
      LD den = crs(d, e);
      if (den <= 0) continue; // leaving the triangle (on the left of e) means e turns left of d
      LC w = p[i] - x;
      LD t = crs(w, e) / den, s = crs(w, d) / den;
      if (t < best) {
        best = t;
        bs = s;
        bi = i;
      }
      r.margin = std::min(r.margin, std::fabs(den) / std::abs(e));
    }
    fromCorner = Halfedge();
    r.f = f;
    r.dir = d;
    if (bi < 0) {
      r.margin = 0;
      return;
    }
    LD le = o.L(h[bi].edge());
    if (best >= remaining) {
      r.margin = std::min(r.margin, (best - remaining) / le);
      r.end = x + d * remaining;
      r.len += remaining;
      return;
    }
    r.margin = std::min(r.margin, (remaining - best) / le);
    r.margin = std::min(r.margin, std::min(bs, 1 - bs));
    r.margin = std::min(r.margin, best / le);
    if (!(r.margin > 0)) return;
    r.len += best;
    remaining -= best;
    r.crossings.push_back({h[bi], bs});
    r.dirs.push_back(d);
    r.dist.push_back(r.len);
    Halfedge tw = h[bi].twin();
    if (!tw.isInterior() || (barrier && (*barrier)[h[bi].edge()])) {
      r.stopped = true;
      return;
    }
    if (r.crossings.size() >= std::max<size_t>(1, limit)) return;
    d *= o.across(h[bi]);
    f = tw.face();
    corners(o, f, h, p);
    int k = 0;
    while (h[k] != tw) k++;
    x = p[k] + (p[(k + 1) % 3] - p[k]) * (1 - bs);
    from = tw;
  }
}

inline Ref reference(const TriOracle& o, SurfacePoint s, LC v, const EdgeData<bool>* barrier, size_t limit = 1000) {
  Ref r;
  LD len = std::abs(v);
  LC d = v / len;
  Halfedge h[3];
  LC p[3];
  if (s.type == SurfacePointType::Face) {
    corners(o, s.face, h, p);
    LC x = p[0] * (LD)s.faceCoords.x + p[1] * (LD)s.faceCoords.y + p[2] * (LD)s.faceCoords.z;
    run(o, r, s.face, x, d, len, Halfedge(), Halfedge(), barrier, limit);
  } else if (s.type == SurfacePointType::Edge) {
    Halfedge he = s.edge.halfedge();
    LD t = s.tEdge;
    r.margin = std::fabs(d.imag());
    if (d.imag() < 0) {
      he = he.twin();
      d = -d;
      t = 1 - t;
    }
    if (!he.isInterior()) {
      r.stopped = true;
      return r;
    }
    corners(o, he.face(), h, p);
    int k = 0;
    while (h[k] != he) k++;
    LC e = p[(k + 1) % 3] - p[k];
    run(o, r, he.face(), p[k] + e * t, d * e / std::abs(e), len, he, Halfedge(), barrier, limit);
  } else {
    LD th = std::arg(d);
    if (th < 0) th += 2 * LPI;
    bool bd = s.vertex.isBoundary();
    if (bd && th > LPI) {
      r.margin = 0;
      return r;
    }
    Halfedge start;
    LD off = 0;
    Halfedge c = s.vertex.halfedge();
    do {
      if (!c.isInterior()) break;
      LD a = o.phi[c.getIndex()], b = a + o.scaled[c.getIndex()];
      if (th >= a && th < b) {
        start = c;
        off = th - a;
        r.margin = std::min(th - a, b - th);
        break;
      }
      c = c.next().next().twin();
    } while (c != s.vertex.halfedge());
    if (start == Halfedge()) {
      r.margin = 0;
      return r;
    }
    off *= o.angSum[s.vertex.getIndex()] / (bd ? LPI : 2 * LPI);
    corners(o, start.face(), h, p);
    int k = 0;
    while (h[k] != start) k++;
    LC e = p[(k + 1) % 3] - p[k];
    run(o, r, start.face(), p[k], e / std::abs(e) * std::polar((LD)1, off), len, Halfedge(), start, barrier, limit);
  }
  return r;
}

inline LC edgeFrame(const TriOracle& o, Halfedge h, LC dirInFace) { // direction in the tangent space of the edge
  LC e = o.vecInFace(h);
  LC r = dirInFace / (e / std::abs(e));
  return h == h.edge().halfedge() ? r : -r;
}

// a triangulated convex polygon in the plane z=0
inline Soup genFlat(G& g, int maxIns, double minAng) {
  int n = g.range(3, 8);
  std::vector<Vector3> pos;
  double ecc = g.real(.6, 1);
  for (int i = 0; i < n; i++) {
    double a = 2 * M_PI * (i + g.jitter(.2)) / n;
    pos.push_back(Vector3{std::cos(a), ecc * std::sin(a), 0});
  }
  std::vector<std::vector<size_t>> tris;
  for (int i = 1; i + 1 < n; i++) tris.push_back({0, (size_t)i, (size_t)i + 1});
  ManifoldSurfaceMesh m(tris);
  VertexData<Vector3> P(m);
  for (int i = 0; i < n; i++) P[m.vertex(i)] = pos[i];
  auto delaunay = [&]() {
    for (bool ch = true; ch;) {
      ch = false;
      for (Edge e : m.edges()) {
        if (e.isBoundary()) continue;
        double c = 0;
        for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
          Vector3 x = P[h.next().tipVertex()];
          Vector3 u = P[h.tailVertex()] - x, v = P[h.tipVertex()] - x;
          c += dot(u, v) / norm(cross(u, v));
        }
        if (c < -1e-6 && m.flip(e, false)) ch = true;
      }
    }
  };
  delaunay();
  int k = g.range(0, maxIns);
  for (int i = 0; i < k; i++) {
    // the largest face, or any
    Face f = pickFace(g, m);
    double best = 0;
    if (g.chance(.7))
      for (Face x : m.faces()) {
        std::vector<Vector3> q;
        for (Vertex v : x.adjacentVertices()) q.push_back(P[v]);
        double A = norm(cross(q[1] - q[0], q[2] - q[0]));
        if (A > best * 1.0001) best = A, f = x;
      }
    Vector3 b = genBary(g), c{0, 0, 0};
    int j = 0;
    for (Vertex v : f.adjacentVertices()) c += P[v] * (b[j++] * .5 + .5 / 3);
    Vertex v = m.insertVertex(f);
    P[v] = c;
    delaunay();
  }
  m.compress();
  Soup s = soupOf(m, P);
  s.desc = "flat";
  if (minAngle(s) < minAng) g.discard();
  return s;
}

} // namespace mg
