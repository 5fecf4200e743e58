// C17: exact polyhedral geodesics
// C20: fast marching
#include "geodesic.h"
#include "pbt_main.h"

#include "geometrycentral/surface/exact_geodesics.h"
#include "geometrycentral/surface/fast_marching_method.h"

using namespace mg;

struct GW {
  World W;
  SurfaceMesh* m;
  IntrinsicGeometryInterface* geo;
  std::unique_ptr<TriOracle> o;
  bool manifold;
  double size; // mean edge length
};

static GW makeGW(G& g, int maxF, bool general, double minAng = .2) {
  GW r;
  World& W = r.W;
  if (general && g.chance(.25)) {
    W.w = genGeneralTriGeo(g, 10, minAng, 2);
    r.manifold = false;
    g.label("general mesh");
  } else {
    GenOpts o;
    o.tri = true;
    o.maxFaces = maxF;
    o.multi = g.chance(.1);
    W.w = genTriGeo(g, o, true, minAng, 2);
    r.manifold = true;
  }
  r.m = W.w.mesh.get();
  r.geo = W.w.vpg.get();
  if (g.chance(.6)) { // general position
    EdgeData<double> l(*r.m);
    TriOracle o = oracleOf(*r.m, W.w.pos);
    unsigned k = (unsigned)g.below(1000);
    for (Edge e : r.m->edges()) {
      k = k * 1664525u + 1013904223u;
      l[e] = (double)o.L(e) * (1 + .1 * minAng * minAng * ((k >> 8) % 65536) / 65536.);
    }
    W.elg.reset(new EdgeLengthGeometry(*r.m, l));
    r.geo = W.elg.get();
    r.o.reset(new TriOracle(oracleOf(*r.m, l)));
    g.note("lengths shaken");
  } else
    r.o.reset(new TriOracle(oracleOf(*r.m, W.w.pos)));
  double s = 0;
  for (Edge e : r.m->edges()) s += (double)r.o->L(e);
  r.size = s / r.m->nEdges();
  if (r.size < 2e-3) g.discard();
  return r;
}

static std::string show(const SurfacePoint& p) {
  std::ostringstream s;
  s.precision(17);
  s << p;
  return s.str();
}

static LD legLen(const TriOracle& o, SurfaceMesh& m, const SurfacePoint& a, const SurfacePoint& b) { // within a common face
  LD best = INFINITY;
  GeoOracle q(o, m);
  q.addPoint(a);
  q.addPoint(b);
  for (Face f : m.faces()) {
    Halfedge h[3];
    LC p[3];
    bool ready = false;
    for (auto& x : q.inFace[f.getIndex()])
      for (auto& y : q.inFace[f.getIndex()]) {
        if (x.first != 0 || y.first != 1) continue;
        if (!ready) corners(o, f, h, p);
        ready = true;
        LC d = 0;
        for (int i = 0; i < 3; i++) d += p[i] * (LD)(x.second[i] - y.second[i]);
        best = std::min(best, std::abs(d));
      }
  }
  return best;
}

static std::vector<SurfacePoint> genSources(G& g, SurfaceMesh& m, int maxN) {
  int n = g.range(1, maxN);
  std::vector<SurfacePoint> s;
  for (int i = 0; i < n; i++) s.push_back(genPoint(g, m, false));
  return s;
}

static double checkSolved(G& g, GW& R, GeodesicAlgorithmExact& mmp, const std::vector<SurfacePoint>& src,
                          const std::vector<SurfacePoint>& qs, bool paths, double radius = INFINITY) {
  TriOracle& o = *R.o;
  SurfaceMesh& m = *R.m;
  GeoOracle go(o, m);
  std::vector<size_t> sid, qid, vid;
  for (auto& s : src) sid.push_back(go.addPoint(s));
  for (auto& q : qs) qid.push_back(go.addPoint(q));
  for (Vertex v : m.vertices()) {
    if (go.vnode[v.getIndex()] == INVALID_IND) go.addPoint(SurfacePoint(v));
    vid.push_back(go.vnode[v.getIndex()]);
  }
  if (!go.solve(sid)) g.discard();
  double tol = 2e-5 * R.size;
  auto within = [&](LD d) { return d < radius - tol; };
  auto check = [&](double got, LD want, const std::string& what) {
    if (!within(want)) {
      REQ(g, std::isfinite((double)want) ? std::fabs(got - (double)want) <= tol || got >= GEODESIC_INF / 2
                                         : got >= GEODESIC_INF / 2,
          what << " beyond the propagation distance: got " << got << ", exact " << (double)want);
      return;
    }
    REQ(g, std::fabs(got - (double)want) <= tol, what << ": got " << got << ", exact " << (double)want);
  };
  VertexData<double> D = mmp.getDistanceFunction();
  size_t i = 0;
  double far = 0;
  for (Vertex v : m.vertices()) {
    LD want = go.best(vid[i++]);
    if (std::isfinite((double)want)) far = std::max(far, (double)want);
    check(D[v], want, "getDistanceFunction at " + std::to_string(v.getIndex()));
    check(mmp.getDistance(v), want, "getDistance at " + std::to_string(v.getIndex()));
  }
  for (size_t k = 0; k < qs.size(); k++) {
    LD want = go.best(qid[k]);
    check(mmp.getDistance(qs[k]), want, "getDistance at " + show(qs[k]));
    if (!within(want)) continue;
    auto cs = mmp.closestSource(qs[k]);
    REQ(g, cs.first < src.size(), "closestSource index " << cs.first << " of " << src.size() << " sources");
    REQ(g, std::fabs((double)(go.dist[cs.first][qid[k]] - want)) <= tol,
        "closestSource of " << show(qs[k]) << " is " << cs.first << " at " << (double)go.dist[cs.first][qid[k]] << ", the nearest at "
                            << (double)want);
    if (!paths || !std::isfinite((double)want)) continue;
    double L = -1;
    std::vector<SurfacePoint> P = mmp.traceBack(qs[k], L);
    check(L, want, "length reported by traceBack from " + show(qs[k]));
    REQ(g, P.size() >= 1 && legLen(o, m, P.front(), qs[k]) <= tol, "the path from " << show(qs[k]) << " does not start there");
    size_t fs = src.size();
    for (size_t s = 0; s < src.size(); s++)
      if (legLen(o, m, P.back(), src[s]) <= tol && go.dist[s][qid[k]] - want <= tol) fs = s;
    REQ(g, fs < src.size(), "the path from " << show(qs[k]) << " ends at " << show(P.back()) << ", not at a nearest source");
    LD sum = 0;
    for (size_t j = 0; j + 1 < P.size(); j++) {
      LD l = legLen(o, m, P[j], P[j + 1]);
      REQ(g, std::isfinite((double)l), "path points " << show(P[j]) << " and " << show(P[j + 1]) << " share no face");
      sum += l;
    }
    REQ(g, std::fabs((double)(sum - want)) <= tol * 2, "the path from " << show(qs[k]) << " has length " << (double)sum << ", the distance is "
                                                                      << (double)want);
    if (P.size() > 2) g.label("path through several faces");
    if (!R.manifold || want < .05 * R.size) continue;
    // directions
    Vector2 gr = mmp.getDistanceGradient(qs[k]);
    LC G1(gr.x, gr.y);
    REQ(g, std::fabs(std::abs(G1) - 1) < 1e-6, "the gradient at " << show(qs[k]) << " is " << gr);
    LD err = 10;
    bool amb = false;
    LC first = 0;
    for (auto& a : go.arrivals[qid[k]]) {
      if (a.dist > want + tol) continue;
      LC d = atPoint(o, qs[k], a.f, a.dir, true);
      if (first == LC(0)) first = d;
      amb |= std::abs(d - first) > 1e-2;
      err = std::min(err, std::abs(d - G1));
    }
    if (amb) g.label("several shortest paths");
    REQ(g, err < 5e-3, "the gradient at " << show(qs[k]) << " is " << gr << ", but the shortest path arrives along " << (double)first.real() << " "
                                          << (double)first.imag());
    Vector2 lg = mmp.getLog(qs[k]);
    LC lv(lg.x, lg.y);
    check((double)std::abs(lv), want, "magnitude of the logarithm of " + show(qs[k]));
    // direction of the last leg of the path at the source
    size_t j = P.size() - 1;
    while (j > 0 && legLen(o, m, P[j - 1], src[fs]) < 1e-2 * R.size) j--;
    if (j == 0) continue;
    GeoOracle q2(o, m);
    q2.addPoint(src[fs]);
    q2.addPoint(P[j - 1]);
    err = 10;
    LC wantDir = 0;
    for (Face f : m.faces())
      for (auto& x : q2.inFace[f.getIndex()])
        for (auto& y : q2.inFace[f.getIndex()]) {
          if (x.first != 0 || y.first != 1) continue;
          Halfedge h[3];
          LC p[3];
          corners(o, f, h, p);
          LC d = 0;
          for (int c = 0; c < 3; c++) d += p[c] * (LD)(y.second[c] - x.second[c]);
          wantDir = atPoint(o, src[fs], f, d, false);
          err = std::min(err, std::abs(wantDir - lv / std::abs(lv)));
        }
    if (wantDir == LC(0)) continue; // the source is next to an edge, and the path leaves it across that edge
    REQ(g, err < 2e-2, "the logarithm of " << show(qs[k]) << " is " << lg << ", but the path leaves the source " << show(src[fs]) << " along "
                                           << (double)wantDir.real() << " " << (double)wantDir.imag());
  }
  return far;
}

static void exact(G& g) {
  GW R = makeGW(g, g.chance(.15) ? 40 : 18, true);
  SurfaceMesh& m = *R.m;
  GeodesicAlgorithmExact mmp(m, *R.geo);
  int rounds = g.chance(.3) ? 2 : 1;
  for (int r = 0; r < rounds; r++) {
    bool vertsOnly = g.chance(.25);
    std::vector<SurfacePoint> src, qs;
    if (vertsOnly) {
      std::vector<Vertex> vs;
      int n = g.range(1, 3);
      for (int i = 0; i < n; i++) vs.push_back(pickVertex(g, m));
      for (Vertex v : vs) src.push_back(SurfacePoint(v));
      if (n == 1 && g.coin()) {
        mmp.propagate(vs[0]);
        if (g.coin()) {
          VertexData<double> d = exactGeodesicDistance(m, *R.geo, vs[0]);
          VertexData<double> d2 = mmp.getDistanceFunction();
          for (Vertex v : m.vertices())
            REQ(g, d[v] == d2[v] || std::fabs(d[v] - d2[v]) < 1e-9 * R.size, "exactGeodesicDistance " << d[v] << " and the solver " << d2[v]);
        }
      } else
        mmp.propagate(vs);
    } else {
      src = genSources(g, m, 4);
      if (src.size() == 1 && g.coin()) mmp.propagate(src[0]);
      else mmp.propagate(src);
    }
    int n = g.range(1, 4);
    for (int i = 0; i < n; i++) qs.push_back(genPoint(g, m, false));
    std::string d;
    for (auto& s : src) d += show(s) + " ";
    g.note("sources ", d);
    checkSolved(g, R, mmp, src, qs, true);
    if (src.size() > 1) g.label("several sources");
    if (r) g.label("solver reused");
  }
}

static void early(G& g) {
  GW R = makeGW(g, 30, false);
  SurfaceMesh& m = *R.m;
  GeodesicAlgorithmExact mmp(m, *R.geo);
  std::vector<SurfacePoint> src = genSources(g, m, 3), qs, stops;
  for (int i = 0; i < 2; i++) qs.push_back(genPoint(g, m, false));
  mmp.propagate(src);
  double far = checkSolved(g, R, mmp, src, qs, false);
  int rounds = g.range(1, 2);
  for (int r = 0; r < rounds; r++) {
    double rad = far * g.real(.1, 1.1);
    stops.clear();
    if (g.coin()) {
      int n = g.range(1, 3);
      for (int i = 0; i < n; i++) stops.push_back(genPoint(g, m, false));
    }
    bool withRad = stops.empty() || g.coin();
    g.note("stop: radius ", withRad ? rad : -1., " stop points ", stops.size());
    std::vector<SurfacePoint> s2 = r ? genSources(g, m, 2) : src;
    if (withRad) mmp.propagate(s2, rad, stops);
    else mmp.propagate(s2, GEODESIC_INF, stops);
    checkSolved(g, R, mmp, s2, qs, false, stops.empty() ? rad : -1);
    if (!stops.empty() && !withRad) {
      GeodesicAlgorithmExact full(m, *R.geo);
      full.propagate(s2);
      for (auto& p : stops) {
        double a = full.getDistance(p), b = mmp.getDistance(p);
        REQ(g, a >= GEODESIC_INF / 2 ? b >= GEODESIC_INF / 2 : std::fabs(a - b) < 2e-5 * R.size,
            "distance at the stop point " << show(p) << ": " << b << ", without stopping " << a);
      }
    }
  }
  if (g.chance(.4)) { // without limits again
    mmp.propagate(src);
    checkSolved(g, R, mmp, src, qs, false);
  }
}

static void intervals(G& g) {
  GW R = makeGW(g, 24, true);
  SurfaceMesh& m = *R.m;
  GeodesicAlgorithmExact mmp(m, *R.geo);
  std::vector<SurfacePoint> src = genSources(g, m, 3), qs;
  mmp.propagate(src);
  GeoOracle go(*R.o, m);
  std::vector<size_t> sid, qid;
  for (auto& s : src) sid.push_back(go.addPoint(s));
  std::vector<std::pair<Edge, double>> at;
  for (int i = 0; i < 6; i++) {
    Edge e = pickEdge(g, m);
    double t = g.real(.05, .95);
    at.push_back({e, t});
    qid.push_back(go.addPoint(SurfacePoint(e, t)));
  }
  if (!go.solve(sid)) g.discard();
  for (size_t i = 0; i < at.size(); i++) {
    IntervalList l = mmp.getEdgeIntervals(at[i].first);
    LD want = go.best(qid[i]);
    if (!std::isfinite((double)want)) continue;
    double len = (double)R.o->L(at[i].first), x = 0;
    unsigned n = 0;
    for (const Interval* p = l.m_first; p; p = p->next()) {
      n++;
      Interval* q = const_cast<Interval*>(p);
      REQ(g, std::fabs(q->start() - x) < 1e-9 * len, "the intervals of " << at[i].first << " do not tile it");
      x = p->stop();
      REQ(g, x >= q->start(), "an interval of " << at[i].first << " runs backwards");
    }
    REQ(g, n > 0 && std::fabs(x - len) < 1e-9 * len, "the intervals of " << at[i].first << " do not tile it");
    REQ(g, l.number_of_intervals() == n, "number_of_intervals");
    double t = at[i].first.halfedge().tailVertex() == at[i].first.firstVertex() ? at[i].second : 1 - at[i].second;
    REQ_NEAR(g, l.signal(t * len), (double)want, 2e-5 * R.size, "distance given by the intervals of " << at[i].first);
  }
}

// ================================================================ C20
typedef std::vector<std::vector<std::pair<SurfacePoint, double>>> Curves;

// least value of the linear interpolation of dA, dB along the edge plus the straight way to C, lengths a=|BC|, b=|AC|, angle at C
static LD through(LD a, LD b, LD th, LD dA, LD dB) {
  LC A(b, 0), B = std::polar(a, th);
  LD lo = 0, hi = 1;
  auto f = [&](LD t) { return (1 - t) * dA + t * dB + std::abs(A + (B - A) * t); };
  for (int i = 0; i < 200; i++) {
    LD x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3;
    if (f(x) < f(y)) hi = y;
    else lo = x;
  }
  return f((lo + hi) / 2);
}

static void fmm(G& g) {
  GW R = makeGW(g, 60, false, .1);
  SurfaceMesh& m = *R.m;
  TriOracle& o = *R.o;
  double lmin = 1e300;
  for (Edge e : m.edges()) lmin = std::min(lmin, (double)o.L(e));
  Curves C;
  int nc = g.range(1, 2);
  bool vertsOnly = g.coin(), zero = g.coin();
  std::vector<std::pair<Vertex, double>> vlist;
  for (int c = 0; c < nc; c++) {
    C.emplace_back();
    int n = g.range(1, 3);
    for (int i = 0; i < n; i++) {
      SurfacePoint p = vertsOnly ? SurfacePoint(pickVertex(g, m)) : genPoint(g, m, false);
      double d = zero ? 0 : g.real(-.2, .2) * lmin;
      C.back().push_back({p, d});
      if (vertsOnly) vlist.push_back({p.vertex, d});
      g.note("source ", show(p), " ", d);
    }
  }
  VertexData<double> D = vertsOnly && g.coin() ? FMMDistance(*R.geo, vlist, false) : FMMDistance(*R.geo, C, false);
  // values given by the sources
  std::vector<LD> src(m.nVerticesCapacity(), INFINITY), dij;
  for (auto& c : C)
    for (auto& x : c) {
      GeoOracle q(o, m);
      q.addPoint(x.first);
      for (Face f : m.faces())
        for (auto& b : q.inFace[f.getIndex()]) {
          Halfedge h[3];
          LC p[3];
          corners(o, f, h, p);
          LC at = 0;
          for (int i = 0; i < 3; i++) at += p[i] * (LD)b.second[i];
          bool own = x.first.type == SurfacePointType::Face;
          for (int i = 0; i < 3; i++) {
            Vertex v = h[i].vertex();
            bool mine = own || (x.first.type == SurfacePointType::Vertex && v == x.first.vertex) ||
                        (x.first.type == SurfacePointType::Edge && (v == x.first.edge.firstVertex() || v == x.first.edge.secondVertex()));
            if (mine) src[v.getIndex()] = std::min(src[v.getIndex()], (LD)x.second + std::abs(p[i] - at));
          }
        }
    }
  dij = src;
  for (bool ch = true; ch;) {
    ch = false;
    for (Edge e : m.edges()) {
      size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
      LD l = o.L(e);
      if (dij[a] + l < dij[b]) dij[b] = dij[a] + l, ch = true;
      if (dij[b] + l < dij[a]) dij[a] = dij[b] + l, ch = true;
    }
  }
  double tol = 1e-6 * R.size;
  bool gap = false, tri = false;
  for (Vertex v : m.vertices()) {
    LD d = D[v];
    size_t i = v.getIndex();
    if (!std::isfinite((double)dij[i])) {
      REQ(g, std::isinf(D[v]) && D[v] > 0, "the distance at " << v << ", out of reach of any source, is " << D[v]);
      continue;
    }
    REQ(g, std::isfinite(D[v]), "the distance at " << v << " is " << D[v]);
    REQ(g, d <= dij[i] + tol, "the distance " << D[v] << " at " << v << " exceeds a path along edges, " << (double)dij[i]);
    // sources and neighbours
    LD lo = src[i];
    for (Halfedge h : v.outgoingHalfedges()) {
      LD dn = D[h.tipVertex()];
      if (dn <= d + tol) lo = std::min(lo, dn + o.L(h.edge()));
      if (!h.isInterior()) continue;
      Halfedge n = h.next();
      LD dA = D[n.tailVertex()], dB = D[n.tipVertex()], lA = o.L(h.edge()), lB = o.L(n.next().edge()), th = o.ang[h.getIndex()];
      LD u = through(lB, lA, th, dA, dB);
      lo = std::min(lo, std::max(u, std::min(dA, dB)));
      if (std::max(dA, dB) < d - tol && std::isinf((double)src[i])) {
        if (th < LPI / 2 - 1e-6L) {
          REQ(g, d <= u + tol, "the distance " << D[v] << " at " << v << " exceeds the update " << (double)u << " through " << h.face() << ": "
                                               << (double)dA << " " << (double)dB);
          if (u < std::min(dA + lA, dB + lB) - tol) tri = true;
        } else {
          LD alt = lA * lB * sinl(th) / std::abs(LC(lA, 0) - std::polar(lB, th));
          REQ(g, d <= std::max(dA, dB) + alt + tol, "the distance at " << v << " exceeds the bound through the obtuse " << h.face());
        }
      }
    }
    REQ(g, d >= lo - tol, "the distance " << D[v] << " at " << v << " is less than any update, " << (double)lo);
    if (d < dij[i] - 1e-3 * R.size) gap = true;
    if (vertsOnly && std::isfinite((double)src[i])) REQ_NEAR(g, D[v], (double)src[i], tol, "distance at the source " << v);
  }
  if (tri) g.label("updated through a triangle");
  if (gap) g.label("shorter than along edges");
}

// signed distance to closed curves
static void signedFmm(G& g) {
  GW R = makeGW(g, 80, false, .1);
  SurfaceMesh& m = *R.m;
  TriOracle& o = *R.o;
  std::vector<int> side(m.nVerticesCapacity(), 2); // wanted sign
  Curves C;
  bool rev = g.coin();
  bool cross = g.coin();
  auto build = [&]() {
  if (cross) { // level set of a function which crosses edges
    VertexData<double> f(m);
    // distance-like function: graph distance from some points, minus a level
    int n = g.range(1, 2);
    std::vector<LD> d(m.nVerticesCapacity(), INFINITY);
    for (int i = 0; i < n; i++) {
      GeoOracle q(o, m);
      std::vector<LD> x = q.graph(genPoint(g, m, false));
      for (size_t j = 0; j < x.size(); j++) d[j] = std::min(d[j], x[j]);
    }
    double level = g.real(.3, 2.5) * R.size;
    for (Vertex v : m.vertices()) {
      double x = (double)std::min(d[v.getIndex()], (LD)1e6 * R.size) - level;
      if (std::fabs(x) < 1e-2 * R.size) return false;
      f[v] = x;
      side[v.getIndex()] = (x > 0) != rev ? 1 : -1;
    }
    EdgeData<char> seen(m, 0);
    for (Edge e : m.edges()) {
      bool c = (f[e.firstVertex()] > 0) != (f[e.secondVertex()] > 0);
      if (c && e.isBoundary()) return false; // open curve
    }
    for (Edge e0 : m.edges()) {
      if (seen[e0] || (f[e0.firstVertex()] > 0) == (f[e0.secondVertex()] > 0)) continue;
      C.emplace_back();
      // walk with the negative side on the left: cross halfedges with a negative tail
      Halfedge h = e0.halfedge();
      if (f[h.tailVertex()] > 0) h = h.twin(); // tail negative, tip positive
      Halfedge h0 = h;
      do {
        Edge e = h.edge();
        seen[e] = 1;
        double a = f[e.firstVertex()], b = f[e.secondVertex()];
        double t = std::min(.97, std::max(.03, a / (a - b)));
        C.back().push_back({SurfacePoint(e, t), 0.});
        // h has the negative vertex at its tail: walking with it on the left means entering the face on the left of h
        Halfedge n1 = h.next(), n2 = n1.next();
        // exit through the other crossing edge; seen from the next face it must have a negative tail
        h = (f[n1.tipVertex()] < 0) ? n1.twin() : n2.twin();
      } while (h != h0);
      C.back().push_back(C.back().front());
    }
    g.label("curve crosses edges");
  } else { // boundary of a region
    FaceData<char> in(m, 0);
    int n = g.range(1, 2), size = g.range(1, 14);
    for (int i = 0; i < n; i++) {
      std::vector<Face> st{pickFace(g, m)};
      int k = 0;
      while (!st.empty() && k < size) {
        size_t j = g.below(st.size());
        Face f = st[j];
        st[j] = st.back();
        st.pop_back();
        if (in[f]) continue;
        in[f] = 1;
        k++;
        for (Face x : f.adjacentFaces()) st.push_back(x);
      }
    }
    VertexData<int> deg(m, 0);
    std::map<Vertex, Halfedge> nxt;
    for (Halfedge h : m.halfedges()) {
      if (!h.isInterior() || !in[h.face()]) continue;
      if (!h.twin().isInterior()) return false; // region reaches the boundary of the mesh
      if (in[h.twin().face()]) continue;
      if (nxt.count(h.tailVertex())) return false; // pinched
      nxt[h.tailVertex()] = h;
    }
    if (nxt.empty()) return false;
    for (Face f : m.faces())
      for (Vertex v : f.adjacentVertices())
        if (!nxt.count(v)) side[v.getIndex()] = in[f] ? -1 : 1;
    std::set<Vertex> done;
    bool bd = false, mid = g.chance(.3);
    if (mid) g.label("curve with points inside edges");
    for (auto& x : nxt) {
      if (done.count(x.first)) continue;
      C.emplace_back();
      Vertex v = x.first;
      do {
        done.insert(v);
        bd |= v.isBoundary();
        C.back().push_back({SurfacePoint(v), 0.});
        if (mid && g.chance(.4)) {
          double t = g.real(.05, .95);
          C.back().push_back({SurfacePoint(nxt[v].edge(), t), 0.});
        }
        v = nxt[v].tipVertex();
      } while (v != x.first);
      C.back().push_back(C.back().front());
      side[v.getIndex()] = 2;
    }
    for (auto& x : nxt) side[x.first.getIndex()] = 0;
    if (rev)
      for (auto& s : side)
        if (s == 1 || s == -1) s = -s;
    if (bd) g.label("curve touches the boundary");
  }
  return !C.empty();
  };
  int tries = 0;
  while (!build()) {
    if (++tries == 12) g.discard();
    C.clear();
    std::fill(side.begin(), side.end(), 2);
  }
  if (g.chance(.05)) C.emplace_back();
  if (rev)
    for (auto& c : C) std::reverse(c.begin(), c.end());
  std::string d;
  for (auto& c : C) {
    for (auto& p : c) d += show(p.first) + " ";
    d += "; ";
  }
  g.note("curves ", d);
  VertexData<double> S = FMMDistance(*R.geo, C, true);
  VertexData<double> Un = FMMDistance(*R.geo, C, false);
  double tol = 1e-6 * R.size;
  std::vector<LD> up(m.nVerticesCapacity(), INFINITY);
  std::vector<char> near(m.nVerticesCapacity(), 0); // next to the curve: measured straight to the points of the curve
  for (auto& c : C)
    for (auto& x : c) {
      const SurfacePoint& p = x.first;
      auto nb = [&](Vertex v, LD d) {
        near[v.getIndex()] = 1;
        up[v.getIndex()] = std::min(up[v.getIndex()], d);
      };
      if (p.type == SurfacePointType::Vertex) nb(p.vertex, 0);
      else {
        nb(p.edge.firstVertex(), p.tEdge * o.L(p.edge));
        nb(p.edge.secondVertex(), (1 - p.tEdge) * o.L(p.edge));
      }
    }
  for (bool ch = true; ch;) {
    ch = false;
    for (Halfedge h : m.halfedges()) {
      size_t i = h.tailVertex().getIndex(), j = h.tipVertex().getIndex();
      LD d = up[i] + o.L(h.edge());
      if (!near[j] && d < up[j] - 1e-12L * R.size) up[j] = d, ch = true;
    }
  }
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    if (!std::isfinite((double)up[i])) continue; // another component
    int s = side[i];
    REQ(g, std::isfinite(S[v]), "the signed distance at " << v << " is " << S[v]);
    if (s == 0) {
      REQ(g, std::fabs(S[v]) <= tol, "the signed distance at " << v << " on the curve is " << S[v]);
      continue;
    }
    REQ(g, S[v] * s > 0, "the signed distance at " << v << " is " << S[v] << " on the " << (s > 0 ? "right" : "left") << " of the curve");
    REQ(g, std::fabs(S[v]) <= (double)up[i] + tol, "the signed distance " << S[v] << " at " << v << " is farther than along edges, " << (double)up[i]);
    if (!cross)
      REQ(g, std::fabs(std::fabs(S[v]) - Un[v]) <= tol, "the signed distance " << S[v] << " at " << v << " and the distance " << Un[v] << " differ");
  }
}

static void fmmRefuse(G& g) {
  Geo w = genGeneralTriGeo(g, 10);
  VertexData<double> D;
  std::vector<std::pair<Vertex, double>> none;
  if (!w.mesh->isManifold()) {
    REQ_THROWS(g, FMMDistance(*w.vpg, {{w.mesh->vertex(0), 0.}}), "FMMDistance on a nonmanifold mesh");
    g.label("nonmanifold");
  }
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs{
      {"C17",
       "a mesh of more than 4 faces",
       {{"exact", exact, 2600, 60000, 30}, {"early stop", early, 1000, 25000, 30}, {"intervals", intervals, 800, 20000, 30}},
       {"triangles have angles of at least 0.16 rad; sources and queries keep 3 % away from the ends of edges",
        "meshes are simplicial complexes; a quarter of them need not be manifold"}},
      {"C20",
       "a mesh of more than 4 faces",
       {{"unsigned", fmm, 8000, 100000, 20}, {"signed", signedFmm, 8000, 100000, 20}, {"refusal", fmmRefuse, 300, 2000, 10}},
       {"signed distances are checked for closed curves only, as documented"}},
  };
  return pbt::run(argc, argv, specs);
}
