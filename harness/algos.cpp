// C30: paths in the graph of edges, level sets, intersections, samples, centers, Voronoi cells, cuts
#include "meshcheck.h"
#include "pointutil.h"
#include "pbt_main.h"

#include "geometrycentral/surface/geodesic_centroidal_voronoi_tessellation.h"
#include "geometrycentral/surface/intersection.h"
#include "geometrycentral/surface/marching_triangles.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "geometrycentral/surface/poisson_disk_sampler.h"
#include "geometrycentral/surface/surface_centers.h"
#include "geometrycentral/surface/surgery.h"
#include "geometrycentral/utilities/utilities.h"

using namespace mg;

static void reseed(G& g) { util_mersenne_twister.seed((unsigned)g.below(1u << 20)); }

static Geo genAny(G& g, int maxF, bool& manifold, double minAng = .1) {
  manifold = !g.chance(.35);
  if (!manifold) return genGeneralTriGeo(g, 12, .05, 2);
  GenOpts o;
  o.tri = true;
  o.maxFaces = maxF;
  o.multi = g.chance(.2);
  return genTriGeo(g, o, true, minAng, 2);
}

// ---------------------------------------------------------------- paths

static std::vector<double> bellmanFord(SurfaceMesh& m, const std::vector<std::array<size_t, 2>>& arcs, const std::vector<double>& len, size_t s) {
  std::vector<double> d(m.nVerticesCapacity(), INFINITY);
  d[s] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < arcs.size(); i++) {
      double x = d[arcs[i][0]] + len[i];
      if (x < d[arcs[i][1]]) d[arcs[i][1]] = x, ch = true;
    }
  }
  return d;
}

static void paths(G& g) {
  bool man;
  Geo w = genAny(g, 60, man);
  SurfaceMesh& m = *w.mesh;
  EdgeData<double> l(m);
  bool intr = g.chance(.3);
  TriOracle o = oracleOf(m, w.pos);
  double tot = 0;
  bool ties = g.chance(.2);
  for (Edge e : m.edges()) {
    l[e] = ties ? 1. : (double)o.L(e);
    tot += l[e];
  }
  std::unique_ptr<EdgeLengthGeometry> elg;
  IntrinsicGeometryInterface* geo = w.vpg.get();
  if (intr || ties) {
    elg.reset(new EdgeLengthGeometry(m, l));
    geo = elg.get();
  }
  Vertex s = pickVertex(g, m), t = pickVertex(g, m);
  std::vector<std::array<size_t, 2>> arcs, both;
  std::vector<double> al, bl;
  for (Halfedge h : m.halfedges()) {
    arcs.push_back({h.tailVertex().getIndex(), h.tipVertex().getIndex()});
    al.push_back(l[h.edge()]);
    for (int i = 0; i < 2; i++) {
      both.push_back({arcs.back()[i], arcs.back()[1 - i]});
      bl.push_back(l[h.edge()]);
    }
  }
  std::vector<double> d = bellmanFord(m, arcs, al, s.getIndex());
  std::vector<Halfedge> p = shortestEdgePath(*geo, s, t);
  double D = d[t.getIndex()];
  if (s == t || !std::isfinite(D)) {
    REQ(g, p.empty(), "a path of " << p.size() << " halfedges");
    if (s != t) g.label("unreachable");
  } else {
    REQ(g, !p.empty(), "no path from " << s << " to " << t);
    double x = 0;
    Vertex at = s;
    for (Halfedge h : p) {
      REQ(g, h.tailVertex() == at, "the path is broken at " << at);
      at = h.tipVertex();
      x += l[h.edge()];
    }
    REQ(g, at == t, "the path ends at " << at);
    REQ_NEAR(g, x, D, 1e-10 * tot, "length of the shortest path");
    if (p.size() > 1) g.nontrivial();
  }
  // distances within a radius ignore orientations
  std::vector<double> u = bellmanFord(m, both, bl, s.getIndex());
  double mx = 0;
  for (double x : u)
    if (std::isfinite(x)) mx = std::max(mx, x);
  double rad = g.real(0, 1.2) * mx;
  if (ties && g.coin()) rad = std::floor(rad);
  auto ball = vertexDijkstraDistanceWithinRadius(*geo, s, rad);
  size_t n = 0;
  for (Vertex v : m.vertices()) {
    double x = u[v.getIndex()];
    auto it = ball.find(v);
    if (it != ball.end()) {
      n++;
      REQ_NEAR(g, it->second, x, 1e-10 * tot, "distance to " << v);
    }
    if (x < rad * (1 - 1e-10)) REQ(g, it != ball.end(), "vertex " << v << " at distance " << x << " < " << rad << " is missing");
    if (x > rad + 1e-10 * tot) REQ(g, it == ball.end(), "vertex " << v << " at distance " << x << " > " << rad << " is included");
    if (ties && x == rad) REQ(g, it != ball.end(), "vertex " << v << " at distance exactly " << rad << " is missing");
  }
  REQ(g, n == ball.size(), "foreign vertices");
}

// ---------------------------------------------------------------- level sets

typedef std::array<double, 3> PKey; // kind, index, parameter
static PKey keyOf(const SurfacePoint& p) {
  if (p.type == SurfacePointType::Vertex) return PKey{{0, (double)p.vertex.getIndex(), 0}};
  return PKey{{1, (double)p.edge.getIndex(), p.tEdge}};
}
static bool nearKey(const PKey& a, const PKey& b) { return a[0] == b[0] && a[1] == b[1] && std::fabs(a[2] - b[2]) < 1e-9; }

static void levelSets(G& g) {
  bool man;
  Geo w = genAny(g, 60, man);
  SurfaceMesh& m = *w.mesh;
  std::unique_ptr<EdgeLengthGeometry> elg;
  IntrinsicGeometryInterface* geo = w.vpg.get();
  TriOracle o = oracleOf(m, w.pos);
  if (g.chance(.3)) {
    EdgeData<double> l(m);
    for (Edge e : m.edges()) l[e] = (double)o.L(e);
    elg.reset(new EdgeLengthGeometry(m, l));
    geo = elg.get();
  }
  VertexData<double> u(m);
  bool integers = g.chance(.5);
  double k = std::pow(10., g.range(-3, 3));
  Vector3 dir = randDir(g);
  for (Vertex v : m.vertices())
    u[v] = integers ? (double)g.range(-2, 2) : (g.chance(.5) ? g.jitter(1) : dot(dir, w.pos[v]) / w.scale) * k;
  double iso = g.coin() ? 0 : integers ? g.range(-1, 1) : g.jitter(.7) * k;
  auto curves = marchingTriangles(*geo, u, iso);
  if (integers && g.chance(.3) && iso == 0) curves = marchingTriangles(*geo, u); // default level

  struct Seg {
    PKey a, b;
    int sense; // 1: values grow to the right of a->b; -1: of b->a; 0: either
    bool used;
  };
  std::vector<Seg> want;
  std::set<size_t> done;
  bool plain = man; // the level set is a 1-manifold
  for (Face f : m.faces()) {
    Halfedge h[3];
    LC p[3];
    corners(o, f, h, p);
    double x[3];
    for (int i = 0; i < 3; i++) x[i] = u[h[i].vertex()] - iso;
    std::vector<std::pair<PKey, LC>> hit;
    int zeros = 0, zi = -1;
    for (int i = 0; i < 3; i++) {
      if (x[i] == 0) hit.push_back({PKey{{0, (double)h[i].vertex().getIndex(), 0}}, p[i]}), zeros++;
      int j = (i + 1) % 3;
      if (x[i] == 0 && x[j] == 0) zi = i;
      if ((x[i] < 0 && x[j] > 0) || (x[i] > 0 && x[j] < 0)) {
        LD t = x[i] / ((LD)x[i] - x[j]);
        bool fwd = h[i].edge().firstVertex() == h[i].vertex();
        if (std::fabs(x[i]) < 1e-10 * k || std::fabs(x[j]) < 1e-10 * k) g.discard();
        hit.push_back({PKey{{1, (double)h[i].edge().getIndex(), (double)(fwd ? t : 1 - t)}}, p[i] + (p[j] - p[i]) * t});
      }
    }
    if (zeros) plain = false;
    if (zeros == 3 || hit.size() != 2) {
      REQ(g, hit.size() != 1 || zeros == 1, "oracle");
      continue;
    }
    // gradient of the linear function
    LC e1 = p[1] - p[0], e2 = p[2] - p[0];
    LD det = crs(e1, e2);
    LC grad = (LC(e2.imag(), -e2.real()) * (LD)(x[1] - x[0]) + LC(-e1.imag(), e1.real()) * (LD)(x[2] - x[0])) / det;
    LC tang = hit[1].second - hit[0].second;
    LC right(tang.imag(), -tang.real());
    LD c = (std::conj(right) * grad).real();
    int sense = c > 0 ? 1 : -1;
    if (zi >= 0) {
      size_t e = h[zi].edge().getIndex();
      bool second = !done.insert(e).second;
      if (second) {
        for (auto& s : want)
          if (s.a[0] == 0 && s.b[0] == 0 && ((nearKey(s.a, hit[0].first) && nearKey(s.b, hit[1].first)) || (nearKey(s.b, hit[0].first) && nearKey(s.a, hit[1].first)))) {
            int sn = nearKey(s.a, hit[0].first) ? sense : -sense;
            if (s.sense != sn) s.sense = 0; // a ridge or a valley
          }
        continue;
      }
      if (!man) sense = 0;
    }
    want.push_back(Seg{hit[0].first, hit[1].first, sense, false});
    g.nontrivial();
  }
  size_t nseg = 0;
  for (auto& c : curves) {
    REQ(g, c.size() >= 2, "a curve of " << c.size() << " points");
    for (auto& p : c) REQ(g, p.type != SurfacePointType::Face, "a point within a face");
    for (size_t i = 0; i + 1 < c.size(); i++) {
      PKey a = keyOf(c[i]), b = keyOf(c[i + 1]);
      bool found = false;
      for (auto& s : want) {
        if (s.used) continue;
        bool f = nearKey(s.a, a) && nearKey(s.b, b), r = nearKey(s.a, b) && nearKey(s.b, a);
        if (!f && !r) continue;
        if (s.sense && ((f && s.sense < 0) || (r && !f && s.sense > 0))) continue;
        s.used = true;
        found = true;
        break;
      }
      REQ(g, found, "segment " << i << " of the curve, from " << c[i] << " to " << c[i + 1] << ", is not part of the level set or has the wrong sense");
      nseg++;
    }
  }
  REQ(g, nseg == want.size(), nseg << " of " << want.size() << " segments of the level set were found");
  if (plain) {
    // each connected piece is one curve (the mesh may change orientation only if it is not oriented)
    std::map<std::pair<size_t, size_t>, size_t> id;
    std::vector<size_t> par, deg;
    auto idOf = [&](PKey q) {
      auto it = id.insert({{(size_t)q[0], (size_t)q[1]}, id.size()});
      if (it.second) par.push_back(par.size()), deg.push_back(0);
      return it.first->second;
    };
    std::function<size_t(size_t)> find = [&](size_t x) { return par[x] == x ? x : par[x] = find(par[x]); };
    for (auto& s : want) {
      size_t a = idOf(s.a), b = idOf(s.b);
      deg[a]++, deg[b]++;
      par[find(a)] = find(b);
    }
    size_t comps = 0, closed = 0;
    std::map<size_t, bool> open;
    for (size_t i = 0; i < par.size(); i++) {
      comps += find(i) == i;
      if (deg[i] == 1) open[find(i)] = true;
    }
    closed = comps - open.size();
    REQ(g, curves.size() == comps, curves.size() << " curves for " << comps << " components of the level set");
    size_t cl = 0;
    for (auto& c : curves) cl += c.front() == c.back();
    REQ(g, cl == closed, cl << " closed curves for " << closed);
    if (comps > 1) g.label("several curves");
  }
}

// ---------------------------------------------------------------- intersections

static bool pierce(Vector3 a, Vector3 b, const Vector3* t, V3L& x, bool& bad) { // segment ab against the triangle
  V3L A{a.x, a.y, a.z}, B{b.x, b.y, b.z}, T[3];
  for (int i = 0; i < 3; i++) T[i] = V3L{t[i].x, t[i].y, t[i].z};
  V3L n = unit(mg::cross(T[1] - T[0], T[2] - T[0]));
  LD s0 = mg::dot(n, A - T[0]), s1 = mg::dot(n, B - T[0]), L = std::sqrt((double)mg::dot(B - A, B - A)) + std::sqrt((double)mg::dot(T[1] - T[0], T[1] - T[0]));
  if (fabsl(s0) < 1e-6 * L || fabsl(s1) < 1e-6 * L) {
    bad = true;
    return false;
  }
  if ((s0 > 0) == (s1 > 0)) return false;
  x = A + (B - A) * (s0 / (s0 - s1));
  bool in = true;
  for (int i = 0; i < 3; i++) {
    V3L e = T[(i + 1) % 3] - T[i];
    LD c = mg::dot(mg::cross(e, x - T[i]), n) / mg::norm(e);
    if (fabsl(c) < 1e-6 * L) bad = true;
    if (c < 0) in = false;
  }
  return in;
}

static void meets(G& g) {
  struct M {
    std::unique_ptr<SurfaceMesh> mesh;
    std::unique_ptr<VertexPositionGeometry> geo;
  };
  double sc = std::pow(10., g.range(-2, 2));
  bool flat = g.chance(.1);
  auto gen = [&](bool planar) {
    M r;
    Geo w;
    bool man;
    w = genAny(g, 14, man, .15);
    r.mesh = std::move(w.mesh);
    r.geo.reset(new VertexPositionGeometry(*r.mesh));
    for (Vertex v : r.mesh->vertices()) r.geo->inputVertexPositions[v] = Vector3{g.jitter(1), g.jitter(1), planar ? 0 : g.jitter(1)} * sc;
    r.geo->refreshQuantities();
    return r;
  };
  M A = gen(flat), B;
  bool self = !flat && g.chance(.4);
  if (!self) B = gen(flat);
  VertexPositionGeometry &ga = *A.geo, &gb = self ? *A.geo : *B.geo;
  SurfaceIntersectionResult r = self ? (g.coin() ? selfIntersections(ga) : intersections(ga, ga, true)) : intersections(ga, gb);
  auto tri = [](VertexPositionGeometry& q, Face f) {
    std::vector<Vector3> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(q.inputVertexPositions[v]);
    return p;
  };
  REQ(g, r.points.size() == 2 * r.edges.size(), r.points.size() << " points for " << r.edges.size() << " segments");
  for (Vector3 p : r.points) REQ(g, isfinite(p), "undefined point");
  if (flat) {
    REQ(g, r.edges.empty(), "segments of coplanar triangles");
    // some pair overlaps for sure if a vertex of one lies well within a triangle of the other
    bool over = false;
    for (Face f : ga.mesh.faces())
      for (Vertex v : gb.mesh.vertices()) {
        if (v.isDead()) continue;
        auto t = tri(ga, f);
        Vector3 x = gb.inputVertexPositions[v];
        double c[3];
        for (int i = 0; i < 3; i++) c[i] = cross(t[(i + 1) % 3] - t[i], x - t[i]).z / (sc * sc);
        bool in = (c[0] > 1e-3 && c[1] > 1e-3 && c[2] > 1e-3) || (c[0] < -1e-3 && c[1] < -1e-3 && c[2] < -1e-3);
        bool used = false;
        for (Face q : gb.mesh.faces())
          for (Vertex y : q.adjacentVertices()) used = used || (y == v && norm(cross(tri(gb, q)[1] - tri(gb, q)[0], tri(gb, q)[2] - tri(gb, q)[0])) > 1e-2 * sc * sc);
        if (in && used) over = true;
      }
    if (over) {
      REQ(g, r.hasIntersections, "overlapping coplanar meshes");
      g.nontrivial();
    }
    return;
  }
  std::vector<std::pair<V3L, V3L>> want;
  for (Face f : ga.mesh.faces())
    for (Face h : gb.mesh.faces()) {
      if (self) {
        if (h.getIndex() >= f.getIndex()) continue;
        bool shared = false;
        for (Vertex a : f.adjacentVertices())
          for (Vertex b : h.adjacentVertices()) shared = shared || a == b;
        if (shared) continue;
      }
      std::vector<Vector3> p = tri(ga, f), q = tri(gb, h);
      bool bad = false;
      std::vector<V3L> x;
      V3L y;
      for (int i = 0; i < 3; i++) {
        if (pierce(p[i], p[(i + 1) % 3], q.data(), y, bad)) x.push_back(y);
        if (pierce(q[i], q[(i + 1) % 3], p.data(), y, bad)) x.push_back(y);
      }
      if (bad || x.size() % 2) g.discard();
      if (x.size() == 2) want.push_back({x[0], x[1]});
    }
  REQ(g, r.hasIntersections == !want.empty(), "hasIntersections=" << r.hasIntersections << " with " << want.size() << " intersecting pairs");
  REQ(g, r.edges.size() == want.size(), r.edges.size() << " segments for " << want.size() << " intersecting pairs of triangles");
  std::vector<char> used(r.edges.size(), 0);
  for (auto& s : want) {
    bool found = false;
    for (size_t i = 0; i < r.edges.size() && !found; i++) {
      if (used[i]) continue;
      Vector3 a = r.points[r.edges[i][0]], b = r.points[r.edges[i][1]], c = dbl(s.first), d = dbl(s.second);
      double tol = 1e-7 * sc;
      if ((norm(a - c) < tol && norm(b - d) < tol) || (norm(a - d) < tol && norm(b - c) < tol)) found = true, used[i] = 1;
    }
    REQ(g, found, "the segment from " << dbl(s.first) << " to " << dbl(s.second) << " is missing");
    g.nontrivial();
  }
  if (self) g.label("self-intersections");
}

// ---------------------------------------------------------------- samples

static void samples(G& g) {
  GenOpts o;
  o.tri = true;
  o.maxFaces = 30;
  o.multi = g.chance(.3);
  bool flat = g.chance(.4);
  Geo w = flat ? makeManifoldGeo(g, genFlat(g, 8, .1), true, .1, 2) : genTriGeo(g, o, true, .15, 2);
  ManifoldSurfaceMesh& m = *w.man;
  double area = 0;
  TriOracle orc = oracleOf(m, w.pos);
  for (Face f : m.faces()) area += (double)orc.A(f);
  PoissonDiskSampler s(m, *w.vpg);
  reseed(g);
  int rounds = g.range(1, 2);
  for (int round = 0; round < rounds; round++) {
    PoissonDiskOptions q;
    q.minDist = std::sqrt(area) * g.real(.08, .6);
    q.kCandidates = g.coin() ? 30 : g.range(3, 40);
    int na = g.chance(.5) ? g.range(1, 3) : 0;
    for (int i = 0; i < na; i++) q.pointsToAvoid.push_back(SurfacePoint(pickFace(g, m), genBary(g)));
    q.minDistAvoidance = q.minDist * g.real(.2, 5);
    q.use3DAvoidance = !g.chance(.3);
    g.note(" minDist=", q.minDist, " avoid=", na, "x", q.minDistAvoidance, " 3D=", q.use3DAvoidance);
    std::vector<SurfacePoint> p = s.sample(q);
    std::vector<Vector3> x;
    for (auto& a : p) {
      a.validate();
      x.push_back(a.interpolate(w.vpg->vertexPositions));
    }
    double tol = 1 - 1e-9;
    for (size_t i = 0; i < x.size(); i++)
      for (size_t j = 0; j < i; j++) REQ(g, norm(x[i] - x[j]) >= q.minDist * tol, "samples " << j << " and " << i << " are at distance " << norm(x[i] - x[j]));
    std::vector<Vector3> av;
    for (auto& a : q.pointsToAvoid) av.push_back(a.interpolate(w.vpg->vertexPositions));
    // (balls on the surface are covered by rings of points; on a flat domain these are circles)
    double ball = q.use3DAvoidance || q.minDistAvoidance <= q.minDist ? q.minDistAvoidance : flat ? .9 * q.minDistAvoidance : 0;
    for (size_t i = 0; i < x.size(); i++)
      for (Vector3 a : av) REQ(g, norm(x[i] - a) >= ball * tol, "sample " << i << " is at distance " << norm(x[i] - a) << " of a point to avoid");
    // a component without samples has no room at the middle of any face
    std::vector<size_t> comp(m.nFacesCapacity(), 0);
    size_t nc = 0;
    for (Face f : m.faces()) {
      if (comp[f.getIndex()]) continue;
      nc++;
      std::vector<Face> st{f};
      comp[f.getIndex()] = nc;
      while (!st.empty()) {
        Face a = st.back();
        st.pop_back();
        for (Face b : a.adjacentFaces())
          if (!comp[b.getIndex()]) comp[b.getIndex()] = nc, st.push_back(b);
      }
    }
    std::vector<char> has(nc + 1, 0);
    for (auto& a : p) has[comp[a.inSomeFace().face.getIndex()]] = 1;
    for (Face f : m.faces()) {
      if (has[comp[f.getIndex()]]) continue;
      Vector3 c{0, 0, 0};
      for (Vertex v : f.adjacentVertices()) c += w.vpg->vertexPositions[v] / 3;
      bool near = false;
      for (Vector3 a : x) near = near || norm(a - c) <= q.minDist * (1 + 1e-9);
      for (Vector3 a : av) near = near || norm(a - c) <= std::max(q.minDist, q.minDistAvoidance) * (1 + 1e-9);
      REQ(g, near || (na && !q.use3DAvoidance), "component without sample, though the middle of face " << f << " has room");
    }
    if (na == 0 && q.kCandidates >= 30 && nc == 1 && flat) {
      // nearly maximal: discs of radius 2r around the samples almost cover the domain
      double cov = x.size() * M_PI * 4 * q.minDist * q.minDist;
      REQ(g, cov >= area, x.size() << " samples are too few for area " << area);
      if (x.size() > 8) g.nontrivial();
    }
    if (x.size() > 3 && (na || nc > 1)) g.nontrivial();
  }
}

// ---------------------------------------------------------------- centers

static void centers(G& g) {
  bool flat = g.coin();
  Soup s;
  GenOpts o;
  o.tri = true;
  o.maxFaces = 80;
  o.multi = false;
  if (flat) {
    s = genFlat(g, 40, .25);
    similarity(g, s.pos, 2);
  }
  Geo w = flat ? makeManifoldGeo(g, s, false, .25, 0) : genTriGeo(g, o, true, .2, 2);
  ManifoldSurfaceMesh& m = *w.man;
  reseed(g);
  VertexData<double> dist(m, 0.);
  std::vector<Vertex> pts;
  int k = g.coin() ? 1 : g.range(2, 5);
  for (int i = 0; i < k; i++) {
    Vertex v = pickVertex(g, m);
    pts.push_back(v);
    dist[v] += 1;
  }
  int p = g.coin() ? 2 : 1;
  unsigned seed = (unsigned)g.below(1000);
  util_mersenne_twister.seed(seed);
  SurfacePoint c = findCenter(m, *w.vpg, pts, p);
  c.validate();
  // the documented overloads agree, and so does a multiple of the distribution
  util_mersenne_twister.seed(seed);
  VectorHeatMethodSolver solver(*w.vpg);
  SurfacePoint d = findCenter(m, *w.vpg, solver, dist, p);
  Vector3 x = c.interpolate(w.pos), y = d.interpolate(w.pos);
  REQ_NEAR(g, norm(x - y), 0, 1e-6 * w.scale, "center of points against that of their distribution");
  util_mersenne_twister.seed(seed);
  SurfacePoint e = g.coin() ? findCenter(m, *w.vpg, solver, pts, p) : findCenter(m, *w.vpg, dist, p);
  REQ_NEAR(g, norm(e.interpolate(w.pos) - x), 0, 1e-6 * w.scale, "center by another overload");
  // the point returned is a stationary point: the step of the iteration is below a face size, or no step lowers the energy
  TriOracle orc = oracleOf(m, w.pos);
  VertexData<Vector2> lm = solver.computeLogMap(c);
  auto energy = [&](const VertexData<Vector2>& q) {
    double r = 0;
    for (Vertex v : m.vertices()) r += dist[v] * (p == 1 ? q[v].norm() : q[v].norm2());
    return r;
  };
  Vector2 up{0, 0};
  double ws = 0, area = 0;
  for (Face f : m.faces()) area += (double)orc.A(f);
  double eps = 1e-9 * std::sqrt(area);
  for (Vertex v : m.vertices()) {
    if (dist[v] == 0) continue;
    double wt = p == 1 ? dist[v] / (lm[v].norm() + eps) : dist[v];
    up += wt * lm[v];
    ws += wt;
  }
  up /= ws;
  double scale = std::sqrt((double)orc.A(c.inSomeFace().face));
  double e0 = energy(lm);
  if (up.norm() > scale * .3334) {
    // then the step has been halved until it was small enough, without any success
    for (double st = 1; up.norm() * st > scale * .3334 && st > .007; st *= .5) {
      SurfacePoint q = traceGeodesic(*w.vpg, c, up * st).endPoint.inSomeFace();
      double e1 = energy(solver.computeLogMap(q));
      REQ(g, e1 >= e0 * (1 - 1e-6), "a step of " << st << " lowers the energy from " << e0 << " to " << e1);
    }
    g.label("line search stuck");
  } else
    g.nontrivial();
  REQ_THROWS(g, findCenter(m, *w.vpg, pts, 3), "p=3");
}

static void voronoi(G& g) {
  GenOpts o;
  o.tri = true;
  o.maxFaces = 40;
  o.multi = false;
  Geo w = genTriGeo(g, o, true, .2, 2);
  ManifoldSurfaceMesh& m = *w.man;
  VoronoiOptions q;
  int k = g.range(1, 4);
  for (int i = 0; i < k; i++) q.initialSites.push_back(SurfacePoint(pickFace(g, m), genBary(g)));
  q.iterations = g.range(0, 3);
  q.nSubIterations = g.range(1, 2);
  q.stepSize = g.coin() ? 1 : g.real(.3, 1);
  q.tCoef = g.coin() ? 1 : g.real(.5, 3);
  q.computeDistributions = g.coin();
  q.useDelaunay = g.chance(.3) && m.isCompressed();
  bool random = g.chance(.15);
  if (random) q.initialSites.clear(), q.nSites = k;
  reseed(g);
  VoronoiResult r = computeGeodesicCentroidalVoronoiTessellation(m, *w.vpg, q);
  REQ(g, r.siteLocations.size() == (size_t)k, r.siteLocations.size() << " sites");
  REQ(g, r.hasDistributions == q.computeDistributions && r.siteDistributions.size() == (q.computeDistributions ? k : 0), "distributions");
  for (auto& s : r.siteLocations) s.validate();
  if (q.computeDistributions)
    for (Vertex v : m.vertices()) {
      double s = 0;
      for (auto& d : r.siteDistributions) {
        REQ(g, d.getMesh() == &m, "the distributions are on another mesh");
        REQ(g, std::isfinite(d[v]), "value of a distribution");
        s += d[v];
      }
      REQ_NEAR(g, s, 1, 1e-6, "sum of the distributions at " << v);
    }
  if (random || q.useDelaunay) return;
  // the same iteration, with another solver object
  VectorHeatMethodSolver solver(*w.vpg, q.tCoef);
  TriOracle orc = oracleOf(m, w.pos);
  VertexData<double> dual(m, 0);
  double size = 0;
  for (Face f : m.faces()) {
    for (Vertex v : f.adjacentVertices()) dual[v] += (double)orc.A(f) / 3;
    size += (double)orc.A(f);
  }
  size = std::sqrt(size);
  auto rhs = [&](const SurfacePoint& s, VertexData<double>& b) {
    SurfacePoint f = s.inSomeFace();
    int i = 0;
    for (Vertex v : f.face.adjacentVertices()) b[v] += f.faceCoords[i++];
  };
  auto fraction = [&](const std::vector<SurfacePoint>& all, const SurfacePoint& s) {
    VertexData<double> a(m, 0), b(m, 0);
    for (auto& t : all) rhs(t, a);
    rhs(s, b);
    a = solver.scalarDiffuse(a);
    b = solver.scalarDiffuse(b);
    for (Vertex v : m.vertices()) b[v] /= a[v];
    return b;
  };
  std::vector<SurfacePoint> at = q.initialSites;
  for (size_t it = 0; it < q.iterations; it++) {
    std::vector<SurfacePoint> next;
    for (SurfacePoint s : at) {
      VertexData<double> fr = fraction(at, s);
      for (size_t j = 0; j < q.nSubIterations; j++) {
        VertexData<Vector2> lm = solver.computeLogMap(s);
        Vector2 sum{0, 0};
        double ws = 0;
        for (Vertex v : m.vertices()) sum += fr[v] * dual[v] * lm[v], ws += fr[v] * dual[v];
        s = traceGeodesic(*w.vpg, s, sum / ws * q.stepSize).endPoint;
      }
      next.push_back(s);
    }
    at = next;
  }
  for (int i = 0; i < k; i++)
    REQ_NEAR(g, norm(at[i].interpolate(w.pos) - r.siteLocations[i].interpolate(w.pos)), 0, 1e-5 * size, "site " << i);
  if (q.computeDistributions)
    for (int i = 0; i < k; i++) {
      VertexData<double> d = fraction(at, at[i]);
      for (Vertex v : m.vertices()) REQ_NEAR(g, r.siteDistributions[i][v], d[v], 1e-4, "distribution " << i << " at " << v);
    }
  if (q.iterations && k > 1) g.nontrivial();
}

// ---------------------------------------------------------------- cuts

static void cuts(G& g) {
  GenOpts o;
  o.tri = g.chance(.6);
  o.maxFaces = 50;
  Soup s = genManifold(g, o);
  Geo w = makeManifoldGeo(g, s, o.tri, 0, 1);
  ManifoldSurfaceMesh& m = *w.man;
  // grow a tree through inner vertices, which may contain one vertex of the boundary
  EdgeData<char> cut(m, 0);
  VertexData<char> in(m, 0);
  std::vector<Vertex> tree;
  Vertex v0 = pickVertex(g, m);
  in[v0] = 1;
  tree.push_back(v0);
  int nb = v0.isBoundary(), n = 0, steps = g.range(0, 12);
  for (int i = 0; i < steps; i++) {
    Vertex v = tree[g.below(tree.size())];
    std::vector<Halfedge> c;
    for (Halfedge h : v.outgoingHalfedges())
      if (!h.edge().isBoundary() && !in[h.tipVertex()] && !(h.tipVertex().isBoundary() && nb)) c.push_back(h);
    if (c.empty()) continue;
    Halfedge h = c[g.below(c.size())];
    cut[h.edge()] = 1;
    in[h.tipVertex()] = 1;
    tree.push_back(h.tipVertex());
    nb += h.tipVertex().isBoundary();
    n++;
  }
  if (n == 0) {
    REQ_THROWS(g, cutAlongEdges(m, cut), "nothing to cut");
    return;
  }
  if (nb) g.label("touches the boundary");
  g.note(" cut=", n);
  std::unique_ptr<ManifoldSurfaceMesh> c;
  HalfedgeData<Halfedge> par;
  std::tie(c, par) = cutAlongEdges(m, cut);
  c->validateConnectivity();
  REQ(g, par.getMesh() == c.get(), "the parents are on another mesh");
  REQ(g, c->nFaces() == m.nFaces() && c->nEdges() == m.nEdges() + n, c->nFaces() << " faces, " << c->nEdges() << " edges after cutting " << n << " of " << m.nEdges());
  REQ(g, c->nInteriorHalfedges() == m.nInteriorHalfedges() && c->nExteriorHalfedges() == m.nExteriorHalfedges() + 2 * n, "numbers of halfedges");
  // (a tree within the interior opens one loop, one which touches the boundary extends it)
  REQ(g, c->nBoundaryLoops() == m.nBoundaryLoops() + (nb ? 0 : 1), c->nBoundaryLoops() << " boundary loops");
  REQ(g, c->nVertices() == m.nVertices() + n - (nb ? 0 : 1), c->nVertices() << " vertices instead of " << m.nVertices() << " and a tree of " << n);
  std::set<size_t> seen;
  for (Halfedge h : c->interiorHalfedges()) {
    Halfedge p = par[h];
    REQ(g, p != Halfedge() && p.getMesh() == &m && p.isInterior(), "parent of an inner halfedge");
    REQ(g, seen.insert(p.getIndex()).second, "parent " << p << " occurs twice");
    REQ(g, par[h.next()] == p.next(), "parents of successive halfedges");
    bool should = !cut[p.edge()] && p.twin().isInterior();
    REQ(g, h.twin().isInterior() == should, "halfedge " << h << (should ? " lost" : " kept") << " its neighbour");
    if (should) REQ(g, par[h.twin()] == p.twin(), "parents of neighbours");
    if (!cut[p.edge()] && !should) REQ(g, !h.twin().isInterior(), "boundary");
  }
  for (Halfedge h : c->exteriorHalfedges()) REQ(g, par[h] == Halfedge(), "parent of an exterior halfedge");
  // which corners share a vertex: those around an old vertex without crossing a cut edge
  for (Halfedge h : c->interiorHalfedges()) {
    REQ(g, h.vertex().halfedge().vertex() == h.vertex(), "halfedge of a vertex");
  }
  // the input is as before
  m.validateConnectivity();
  if (n > 1) g.nontrivial();
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C30",
                   "triangle meshes (closed, with boundary, several components, gaps, nonmanifold where supported), functions with generic and with equal values, "
                   "pairs of meshes in general position and in one plane, sites, trees of edges; "
                   "non-trivial: paths of two edges, a level set, intersecting pairs, more than 8 samples or points to avoid, converged centers, trees of two edges",
                   {{"paths", paths, 6000, 60000},
                    {"levelsets", levelSets, 9000, 80000},
                    {"intersections", meets, 4000, 40000},
                    {"samples", samples, 2500, 15000},
                    {"centers", centers, 800, 4000},
                    {"voronoi", voronoi, 1000, 6000},
                    {"cuts", cuts, 8000, 60000}},
                   {"pairs of triangles which nearly touch are not generated; the log maps used by centers and Voronoi cells are those of C19"}});
  return pbt::run(argc, argv, specs);
}
