// C27: subdivision, remeshing and simplification; C33: the mutation manager
#include "geomutil.h"
#include "meshcheck.h"
#include "pointutil.h"
#include "pbt_main.h"

#include "geometrycentral/surface/mutation_manager.h"
#include "geometrycentral/surface/quadric_error_simplification.h"
#include "geometrycentral/surface/remeshing.h"
#include "geometrycentral/surface/subdivide.h"

#include <sstream>

using namespace mg;

static bool near(Vector3 a, Vector3 b, double tol) { return norm(a - b) <= tol; } // false for NaN
static double extent(const Geo& w) {
  double s = 0;
  for (Vertex v : w.mesh->vertices()) s = std::max(s, norm(w.vpg->inputVertexPositions[v]));
  return s;
}
static std::string strV(Vector3 p) {
  std::ostringstream os;
  os.precision(10);
  os << "(" << p.x << "," << p.y << "," << p.z << ")";
  return os.str();
}

// ---------------------------------------------------------------- subdivision
typedef std::vector<size_t> Lab; // {0,v}, {1,a,b}, {2,v...}
typedef std::vector<Lab> LFace;
static LFace canon(LFace f) {
  std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end());
  return f;
}
static std::string strL(const Lab& l) {
  std::string s = l[0] == 0 ? "v" : l[0] == 1 ? "e" : "f";
  for (size_t i = 1; i < l.size(); i++) s += (i > 1 ? "." : "") + std::to_string(l[i]);
  return s;
}

// kind: 0 linear, 1 Catmull-Clark, 2 Loop
static void subdivideOnce(G& g, Geo& w, int kind, MutationManager* mm, const std::string& when) {
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  VertexData<size_t> id(m, INVALID_IND);
  std::vector<V3L> P;
  for (Vertex v : m.vertices()) {
    id[v] = P.size();
    P.push_back(V3L(geo.inputVertexPositions[v]));
  }
  size_t n = P.size();
  Polys polys;
  for (Face f : m.faces()) {
    std::vector<size_t> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(id[v]);
    polys.push_back(p);
  }
  double tol = 1e-9 * (extent(w) + 1e-300);
  auto edgeL = [](size_t a, size_t b) { return Lab{1, std::min(a, b), std::max(a, b)}; };
  auto faceL = [](std::vector<size_t> p) {
    std::sort(p.begin(), p.end());
    p.insert(p.begin(), 2);
    return p;
  };
  // expected children
  std::map<Lab, V3L> want;
  std::multiset<LFace> wantF;
  std::map<Lab, std::vector<size_t>> edgeFaces;
  for (size_t f = 0; f < polys.size(); f++) {
    auto& p = polys[f];
    if (!want.insert({faceL(p), V3L()}).second) g.discard(); // two faces with the same vertices
    for (size_t i = 0; i < p.size(); i++) edgeFaces[edgeL(p[i], p[(i + 1) % p.size()])].push_back(f);
  }
  if (edgeFaces.size() != m.nEdges()) g.discard(); // two edges between the same vertices
  std::vector<V3L> cen;
  for (auto& p : polys) {
    V3L c;
    for (size_t v : p) c = c + P[v];
    cen.push_back(c * (1.L / p.size()));
  }
  want.clear();
  std::vector<std::vector<size_t>> nb(n), bnb(n), vf(n);
  for (size_t f = 0; f < polys.size(); f++)
    for (size_t v : polys[f]) vf[v].push_back(f);
  for (auto& e : edgeFaces) {
    size_t a = e.first[1], b = e.first[2];
    nb[a].push_back(b);
    nb[b].push_back(a);
    if (e.second.size() == 1) {
      bnb[a].push_back(b);
      bnb[b].push_back(a);
    }
    V3L mid = (P[a] + P[b]) * .5L, q = mid;
    if (kind == 1 && e.second.size() == 2) q = mid * .5L + (cen[e.second[0]] + cen[e.second[1]]) * .25L;
    if (kind == 2 && e.second.size() == 2) {
      q = mid * .75L;
      for (size_t f : e.second)
        for (size_t v : polys[f])
          if (v != a && v != b) q = q + P[v] * .125L;
    }
    want[e.first] = q;
  }
  for (size_t v = 0; v < n; v++) {
    V3L q = P[v];
    LD d = nb[v].size();
    if (kind > 0 && bnb[v].size() == 2) q = P[v] * .75L + (P[bnb[v][0]] + P[bnb[v][1]]) * .125L;
    else if (kind == 1) {
      V3L F, R;
      for (size_t f : vf[v]) F = F + cen[f] * (1 / d);
      for (size_t u : nb[v]) R = R + (P[u] + P[v]) * (.5L / d);
      q = (F + R * 2 + P[v] * (d - 3)) * (1 / d);
    } else if (kind == 2) {
      LD u = d == 3 ? 3.L / 16 : 3 / (8 * d);
      q = P[v] * (1 - d * u);
      for (size_t x : nb[v]) q = q + P[x] * u;
    }
    want[{0, v}] = q;
  }
  for (size_t f = 0; f < polys.size(); f++) {
    auto& p = polys[f];
    size_t k = p.size();
    if (kind < 2) want[faceL(p)] = cen[f];
    LFace mid;
    for (size_t i = 0; i < k; i++) {
      Lab prev = edgeL(p[(i + k - 1) % k], p[i]), next = edgeL(p[i], p[(i + 1) % k]);
      if (kind < 2) wantF.insert(canon({{0, p[i]}, next, faceL(p), prev}));
      else wantF.insert(canon({{0, p[i]}, next, prev}));
      mid.push_back(next);
    }
    if (kind == 2) wantF.insert(canon(mid));
  }

  // run
  geo.requireFaceAreas();
  if (kind == 0) linearSubdivide(m, geo);
  else if (kind == 1) catmullClarkSubdivide(m, geo);
  else if (mm) loopSubdivide(m, geo, *mm);
  else loopSubdivide(m, geo);

  checkStructure(g, m, when);
  REQ(g, m.isCompressed(), when << ": the mesh is not compressed");
  REQ(g, m.nVertices() == want.size(), when << ": " << m.nVertices() << " vertices, expected " << want.size());
  REQ(g, m.nFaces() == wantF.size(), when << ": " << m.nFaces() << " faces, expected " << wantF.size());
  VertexData<Lab> lab(m);
  std::set<Lab> seen;
  for (Vertex v : m.vertices()) {
    if (id[v] != INVALID_IND) lab[v] = {0, id[v]};
    else {
      std::set<size_t> old;
      for (Vertex u : v.adjacentVertices())
        if (id[u] != INVALID_IND) old.insert(id[u]);
      if (old.size() == 2) lab[v] = edgeL(*old.begin(), *old.rbegin());
      else REQ(g, old.empty() && kind < 2, when << ": a new vertex has " << old.size() << " neighbours among the old vertices");
    }
  }
  for (Vertex v : m.vertices())
    if (lab[v].empty()) {
      std::set<size_t> old;
      for (Vertex u : v.adjacentVertices()) {
        REQ(g, !lab[u].empty() && lab[u][0] == 1, when << ": a face vertex is adjacent to a vertex which is not an edge vertex");
        old.insert(lab[u][1]);
        old.insert(lab[u][2]);
      }
      lab[v] = faceL(std::vector<size_t>(old.begin(), old.end()));
    }
  for (Vertex v : m.vertices()) {
    REQ(g, want.count(lab[v]) && seen.insert(lab[v]).second, when << ": unexpected vertex " << strL(lab[v]));
    REQ(g, near(geo.inputVertexPositions[v], dbl(want[lab[v]]), tol),
        when << ": vertex " << strL(lab[v]) << " is at " << strV(geo.inputVertexPositions[v]) << ", expected " << strV(dbl(want[lab[v]])));
  }
  for (Face f : m.faces()) {
    LFace l;
    for (Vertex v : f.adjacentVertices()) l.push_back(lab[v]);
    auto it = wantF.find(canon(l));
    std::string s;
    for (auto& x : l) s += " " + strL(x);
    REQ(g, it != wantF.end(), when << ": unexpected face" << s);
    wantF.erase(it);
  }
  // the geometry was refreshed
  for (Face f : m.faces()) {
    V3L A;
    Halfedge h0 = f.halfedge();
    V3L o = geo.inputVertexPositions[h0.vertex()];
    for (Halfedge h : f.adjacentHalfedges())
      A = A + cross(V3L(geo.inputVertexPositions[h.tailVertex()]) - o, V3L(geo.inputVertexPositions[h.tipVertex()]) - o);
    REQ_NEAR(g, geo.faceAreas[f], (double)(norm(A) / 2), 1e-7 * geo.faceAreas[f] + 1e-10 * extent(w) * extent(w), when << ": face areas are stale");
  }
  geo.unrequireFaceAreas();
}

static Geo polyGeo(G& g, bool tri) {
  GenOpts o;
  o.maxFaces = 24;
  o.size = 3;
  o.tri = tri;
  Soup s = genManifold(g, o);
  return makeManifoldGeo(g, s, tri, 0.01);
}

static void p_quadSubdivide(G& g) {
  Geo w = polyGeo(g, g.chance(.3));
  int kind = (int)g.below(2);
  int levels = w.mesh->nFaces() < 20 ? g.range(1, 2) : 1;
  for (int i = 0; i < levels; i++)
    subdivideOnce(g, w, kind, nullptr, std::string(kind ? "catmullClarkSubdivide" : "linearSubdivide") + " level " + std::to_string(i + 1));
  g.label(kind ? "catmull-clark" : "linear");
}

static void p_loop(G& g) {
  Geo w = polyGeo(g, true);
  int levels = w.mesh->nFaces() < 20 ? g.range(1, 2) : 1;
  bool useMM = g.coin();
  for (int i = 0; i < levels; i++) {
    size_t nE = w.mesh->nEdges(), nF = w.mesh->nFaces();
    size_t splits = 0, flips = 0, moved = 0;
    std::unique_ptr<MutationManager> mm;
    // data carried through the splits and flips by callbacks
    EdgeData<size_t> tag(*w.mesh);
    for (Edge e : w.mesh->edges()) tag[e] = e.getIndex() + 1;
    EdgeData<size_t> tag0 = tag;
    if (useMM) {
      mm.reset(new MutationManager(*w.man, *w.vpg));
      mm->registerEdgeSplitHandlers([&](Edge e, double t) -> size_t { return tag[e]; },
                                    [&](Halfedge a, Halfedge b, double t, size_t d) {
                                      tag[a.edge()] = tag[b.edge()] = d;
                                      splits++;
                                      if (std::fabs(t - .5) > .5) moved++;
                                    });
      mm->registerEdgeFlipHandlers([&](Edge e) -> size_t { return tag[e]; },
                                   [&](Edge e, size_t d) {
                                     flips++;
                                     tag[e] = d;
                                   });
    }
    subdivideOnce(g, w, 2, mm.get(), std::string("loopSubdivide") + (useMM ? " with a mutation manager" : "") + " level " + std::to_string(i + 1));
    if (useMM) {
      REQ(g, splits == nE, "loopSubdivide: " << splits << " split callbacks for " << nE << " edges");
      // the splits connect the new vertices of every face by 3 edges, two of which end at new vertices in the end
      (void)nF;
      REQ(g, flips > 0 || nF <= 1, "loopSubdivide made flips which the mutation manager was not told about");
      REQ(g, moved == 0, "loopSubdivide: split parameter out of range");
      std::map<size_t, int> cnt;
      for (Edge e : w.mesh->edges()) cnt[tag[e]]++;
      for (auto& c : cnt)
        if (c.first > 0) REQ(g, c.second == 2, "loopSubdivide: an edge has " << c.second << " children");
      REQ(g, cnt.size() == nE + 1, "loopSubdivide: " << cnt.size() - 1 << " edges have children, expected " << nE);
    }
  }
  g.label(useMM ? "with a mutation manager" : "plain");
}

// ---------------------------------------------------------------- quadric error
struct QL {
  std::vector<std::pair<V3L, LD>> planes; // n, offset
  LD cost(V3L p) const {
    LD s = 0;
    for (auto& q : planes) {
      LD d = dot(q.first, p) - q.second;
      s += d * d;
    }
    return s;
  }
};

static Geo tessellatedBox(G& g) {
  std::set<std::array<int, 3>> c;
  int n[3] = {g.range(1, 3), g.range(1, 2), g.range(1, 2)};
  for (int i = 0; i < n[0]; i++)
    for (int j = 0; j < n[1]; j++)
      for (int k = 0; k < n[2]; k++) c.insert({i, j, k});
  Soup s = voxels(c);
  Polys out;
  for (auto& p : s.polys) {
    int r = (int)g.below(4);
    out.push_back({p[r % 4], p[(r + 1) % 4], p[(r + 2) % 4]});
    out.push_back({p[r % 4], p[(r + 2) % 4], p[(r + 3) % 4]});
  }
  s.polys = out;
  int k = g.range(0, 10);
  for (int i = 0; i < k; i++) {
    size_t f = g.below(s.polys.size());
    if (g.coin()) splitFace(s, f);
    else splitEdge(s, f, g.below(3));
  }
  double sx = g.real(.5, 2), sy = g.real(.5, 2), sz = g.real(.5, 2);
  for (auto& p : s.pos) p = Vector3{p.x * sx, p.y * sy, p.z * sz};
  s.desc = "box";
  if (g.chance(.5)) s = permuted(g, s);
  if (!simplicial(RefMesh(s.polys, s.nV()))) g.discard();
  return makeManifoldGeo(g, s, false, .01, 2);
}

static LD volumeOf(SurfaceMesh& m, VertexData<Vector3>& pos, V3L o) {
  LD v = 0;
  for (Face f : m.faces()) {
    Halfedge h = f.halfedge();
    v += dot(V3L(pos[h.vertex()]) - o, cross(V3L(pos[h.next().vertex()]) - o, V3L(pos[h.next().next().vertex()]) - o)) / 6;
  }
  return v;
}

static void topo(SurfaceMesh& m, ManifoldSurfaceMesh& mm, long& chi, size_t& comps, size_t& loops) {
  chi = (long)m.nVertices() - (long)m.nEdges() + (long)m.nFaces();
  comps = m.nConnectedComponents();
  loops = mm.nBoundaryLoops();
}

static void p_qemBox(G& g) {
  Geo w = tessellatedBox(g);
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  // corners: vertices at which three planes meet
  std::vector<Vector3> corners;
  V3L c0;
  double sz = 0;
  for (Vertex v : m.vertices()) {
    std::vector<V3L> ns;
    for (Face f : v.adjacentFaces()) {
      Halfedge h = f.halfedge();
      V3L a = w.pos[h.vertex()];
      V3L nn = unit(cross(V3L(w.pos[h.next().vertex()]) - a, V3L(w.pos[h.next().next().vertex()]) - a));
      bool isNew = true;
      for (auto& x : ns)
        if (norm(x - nn) < 1e-3) isNew = false;
      if (isNew) ns.push_back(nn);
    }
    if (ns.size() >= 3) corners.push_back(w.pos[v]);
    c0 = c0 + V3L(w.pos[v]) * (1.L / m.nVertices());
  }
  if (corners.size() != 8) g.discard();
  for (auto& p : corners) sz = std::max(sz, (double)norm(V3L(p) - c0));
  double ext = std::max(sz, extent(w));
  LD vol = volumeOf(m, w.pos, c0);
  size_t nV0 = m.nVertices();
  bool twice = g.chance(.4);
  geo.requireFaceAreas();
  double tol = 1e-10 * sz * sz;
  if (!(tol > 1e-18 * ext * ext)) g.discard();
  for (int it = 0; it < (twice ? 2 : 1); it++) {
    double far = 0;
    {
      MutationManager mm(m, geo);
      mm.registerEdgeCollapsePostHandler([&](Vertex v, double) { far = std::max(far, (double)norm(V3L(geo.inputVertexPositions[v]) - c0)); });
      if (g.chance(.8)) quadricErrorSimplify(m, geo, tol, mm);
      else quadricErrorSimplify(m, geo, tol);
    }
    REQ(g, far <= sz * 1.001 + 1e-9 * ext, "quadricErrorSimplify of a box moves a vertex out of the box on the way: " << far << " from its center, the corners are at " << sz);
    std::string when = "quadricErrorSimplify of a box (" + std::to_string(nV0) + " vertices), call " + std::to_string(it + 1);
    checkStructure(g, m, when);
    REQ(g, m.isCompressed(), when << ": not compressed");
    double acc = 1e-4 * sz + 1e-9 * ext;
    for (auto& p : corners) {
      bool found = false;
      for (Vertex v : m.vertices()) found = found || near(geo.inputVertexPositions[v], p, acc);
      REQ(g, found, when << ": the corner " << strV(p) << " is lost");
    }
    REQ_NEAR(g, (double)volumeOf(m, geo.inputVertexPositions, c0), (double)vol, 2e-3 * std::fabs((double)vol),
             when << ": the enclosed volume changed");
    REQ(g, m.nVertices() - m.nEdges() + m.nFaces() == 2, when << ": the Euler characteristic changed");
    for (Vertex v : m.vertices())
      REQ(g, norm(V3L(geo.inputVertexPositions[v]) - c0) <= sz * 1.001 + 1e-9 * ext, when << ": a vertex at " << strV(geo.inputVertexPositions[v]) << " left the box");
    for (Face f : m.faces()) REQ_NEAR(g, geo.faceAreas[f], geo.faceArea(f), 1e-9 * (sz * sz + ext * ext * 1e-3), when << ": face areas are stale");
  }
  if (m.nVertices() < nV0) g.label("vertices removed");
  if (m.nVertices() == 8) g.label("down to the 8 corners");
  g.label(twice ? "two calls" : "one call");
}

static void p_qem(G& g) {
  GenOpts o;
  o.maxFaces = 40;
  o.size = 4;
  Geo w = genTriGeo(g, o, true, .12, 2);
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  double ext = extent(w), h = 0;
  for (Edge e : m.edges()) h = std::max(h, norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]));
  long chi, chi2;
  size_t comps, loops, comps2, loops2;
  topo(m, m, chi, comps, loops);
  double tol = h * h * std::pow(10., g.real(-6, 0.5));
  VertexData<QL> Q(m);
  for (Face f : m.faces()) {
    Halfedge he = f.halfedge();
    V3L a = w.pos[he.vertex()];
    V3L nn = unit(cross(V3L(w.pos[he.next().vertex()]) - a, V3L(w.pos[he.next().next().vertex()]) - a));
    for (Vertex v : f.adjacentVertices()) Q[v].planes.push_back({nn, dot(nn, a)});
  }
  MutationManager mm(m, geo);
  VertexData<bool> fixedV(m, false);
  VertexData<Vector3> pos0(m, Vector3{0, 0, 0});
  bool constrained = g.chance(.4);
  EdgeData<bool> collapsible(m, true);
  if (constrained) {
    VertexData<bool> rep(m, true);
    for (Vertex v : m.vertices())
      if (g.chance(.2)) {
        rep[v] = false;
        fixedV[v] = true;
        pos0[v] = w.pos[v];
      }
    mm.setRepositionableVertices(rep);
    for (Edge e : m.edges())
      if (g.chance(.2)) collapsible[e] = false;
    mm.setCollapsibleEdges(collapsible);
  }
  Vertex va, vb;
  Vector3 pa, pb;
  int collapses = 0;
  size_t nV0 = m.nVertices();
  std::string err;
  mm.registerEdgeCollapseHandlers(
      [&](Edge e, double t) -> int {
        va = e.firstVertex();
        vb = e.secondVertex();
        pa = geo.inputVertexPositions[va];
        pb = geo.inputVertexPositions[vb];
        if (constrained && (!collapsible[e] || fixedV[va] || fixedV[vb])) err = "a constrained edge is collapsed";
        if (!(t >= 0 && t <= 1)) err = "collapse parameter " + std::to_string(t);
        return 7;
      },
      [&](Vertex v, double t, int d) {
        collapses++;
        if (d != 7) err = "data is not passed to the callback";
        if (v != va && v != vb) err = "the collapsed vertex is not an endpoint of the edge";
        QL q;
        q.planes = Q[va].planes;
        q.planes.insert(q.planes.end(), Q[vb].planes.begin(), Q[vb].planes.end());
        Q[v] = q;
        V3L p = geo.inputVertexPositions[v];
        LD c = q.cost(p), eps = 1e-5L * h * h * q.planes.size() + 1e-10L * ext * ext;
        LD best = fminl(q.cost((V3L(pa) + V3L(pb)) * .5L), fminl(q.cost(pa), q.cost(pb)));
        std::ostringstream os;
        if (!(c <= tol + eps)) os << "a collapse of cost " << (double)c << " with tolerance " << tol;
        if (!(c <= best + eps)) os << "a collapse to a point of cost " << (double)c << ", while a point of the edge has cost " << (double)best;
        if (!os.str().empty() && err.empty()) err = os.str();
      });
  quadricErrorSimplify(m, geo, tol, mm);
  REQ(g, err.empty(), "quadricErrorSimplify(tol " << tol << "): " << err);
  checkStructure(g, m, "after quadricErrorSimplify");
  topo(m, m, chi2, comps2, loops2);
  REQ(g, chi == chi2 && comps == comps2 && loops == loops2,
      "quadricErrorSimplify changed the topology: Euler characteristic " << chi << "->" << chi2 << ", components " << comps << "->" << comps2 << ", boundary loops " << loops << "->" << loops2);
  REQ(g, m.nVertices() + collapses == nV0, "quadricErrorSimplify: " << collapses << " collapses reported, " << nV0 << " -> " << m.nVertices() << " vertices");
  size_t nFixed = 0, left = 0;
  (void)nFixed;
  for (Vertex v : m.vertices()) {
    Vector3 p = geo.inputVertexPositions[v];
    REQ(g, std::isfinite(norm(p)), "quadricErrorSimplify: position " << strV(p));
    if (fixedV[v]) {
      left++;
      REQ(g, p == pos0[v], "quadricErrorSimplify moved a fixed vertex");
    }
  }
  g.label(collapses == 0 ? "no collapse" : collapses < 5 ? "1..4 collapses" : "5+ collapses");
  if (constrained) g.label("with constraints");
}

// ---------------------------------------------------------------- flipping
static LD angSumOpp(SurfaceMesh& m, VertexData<Vector3>& pos, Edge e) {
  LD s = 0;
  for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
    V3L x = pos[h.next().tipVertex()];
    V3L u = V3L(pos[h.tailVertex()]) - x, v = V3L(pos[h.tipVertex()]) - x;
    s += atan2l(norm(cross(u, v)), dot(u, v));
  }
  return s;
}

static void p_delaunay(G& g) {
  bool flat = g.chance(.6);
  Geo w;
  if (flat) {
    Soup s = genFlat(g, 14, .05);
    s.desc = "flat";
    w = makeManifoldGeo(g, s, false, .05, 3);
    int k = g.range(1, 12);
    for (int i = 0; i < k; i++) { // un-Delaunay it by flips which keep it embedded
      Edge e = pickEdge(g, *w.mesh);
      if (e.isBoundary()) continue;
      V3L A = w.pos[e.halfedge().tailVertex()], B = w.pos[e.halfedge().tipVertex()], C = w.pos[e.halfedge().next().tipVertex()], D = w.pos[e.halfedge().twin().next().tipVertex()];
      V3L N = cross(B - A, C - A);
      LD sc = norm(N);
      N = unit(N);
      if (dot(cross(D - A, C - A), N) < 1e-2 * sc || dot(cross(C - B, D - B), N) < 1e-2 * sc) continue;
      w.man->flip(e);
    }
    w.vpg.reset(new VertexPositionGeometry(*w.mesh, w.pos));
  } else
    w = genTriGeo(g, GenOpts(), true, .05, 3);
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  bool useMM = g.chance(.6), constrained = useMM && g.coin();
  MutationManager mm(m, geo);
  EdgeData<bool> flippable(m, true);
  std::map<size_t, VPair> fixedEnds;
  if (constrained) {
    for (Edge e : m.edges())
      if (g.chance(.3)) {
        flippable[e] = false;
        fixedEnds[e.getIndex()] = mk(e.firstVertex().getIndex(), e.secondVertex().getIndex());
      }
    mm.setFlippableEdges(flippable);
  }
  size_t pre = 0, post = 0;
  mm.registerEdgeFlipPreHandler([&](Edge e) { pre++; });
  mm.registerEdgeFlipPostHandler([&](Edge e) { post++; });
  int bad0 = 0;
  for (Edge e : m.edges())
    if (!e.isBoundary() && angSumOpp(m, w.pos, e) > LPI + 1e-5) bad0++;
  Model before = snap(m);
  size_t n = useMM ? fixDelaunay(m, geo, mm) : fixDelaunay(m, geo);
  checkStructure(g, m, "after fixDelaunay");
  if (useMM) REQ(g, pre == n && post == n, "fixDelaunay returned " << n << " flips, the callbacks saw " << pre << "/" << post);
  if (!useMM && n == 0) compare(g, before, snap(m), "fixDelaunay without flips");
  if (bad0 == 0) g.label("already Delaunay");
  else {
    g.label("not Delaunay");
    if (!constrained) REQ(g, !flat || n > 0, "fixDelaunay made no flip although " << bad0 << " edges are not Delaunay");
  }
  for (auto& e : fixedEnds) {
    Edge ee = m.edge(e.first);
    REQ(g, e.second == mk(ee.firstVertex().getIndex(), ee.secondVertex().getIndex()), "fixDelaunay flipped an edge which may not be flipped");
  }
  for (Vertex v : m.vertices()) REQ(g, geo.inputVertexPositions[v] == w.pos[v], "fixDelaunay moved a vertex");
  if (n < 100 * m.nVertices()) {
    for (Edge e : m.edges()) {
      if (e.isBoundary() || !flippable[e]) continue;
      LD s = angSumOpp(m, w.pos, e);
      if (s < LPI + 1e-5) continue;
      REQ(g, !flat, "after fixDelaunay of a planar mesh, the angles opposite an edge sum to " << (double)s);
    }
  } else
    REQ(g, !flat, "fixDelaunay of a planar mesh did not end by itself");
  g.label(flat ? "planar" : "surface");
  if (constrained) g.label("unflippable edges");
}

// ---------------------------------------------------------------- smoothing
static void p_smooth(G& g) {
  Geo w = genTriGeo(g, GenOpts(), true, .15, 3);
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  bool lap = g.coin(), useMM = g.coin();
  RemeshBoundaryCondition bc = g.pick(std::vector<RemeshBoundaryCondition>{RemeshBoundaryCondition::Fixed, RemeshBoundaryCondition::Tangential, RemeshBoundaryCondition::Free});
  double step = g.chance(.5) ? 1. : g.real(.05, 1.5);
  MutationManager mm(m, geo);
  VertexData<bool> rep(m, true);
  EdgeData<bool> flippable(m, true);
  if (useMM && g.coin()) {
    for (Vertex v : m.vertices()) rep[v] = !g.chance(.25);
    mm.setRepositionableVertices(rep);
  }
  if (useMM && g.coin()) {
    for (Edge e : m.edges()) flippable[e] = !g.chance(.15);
    mm.setFlippableEdges(flippable);
  }
  std::map<size_t, Vector3> seen;
  class Pol : public VertexRepositionPolicy {
  public:
    std::map<size_t, Vector3>* seen;
    void beforeVertexReposition(const Vertex& v, const Vector3& d) override { (*seen)[v.getIndex()] = d; }
  };
  Pol* pol = new Pol();
  pol->seen = &seen;
  mm.registerPolicy(pol);

  // oracle
  auto X = [&](Vertex v) { return V3L(w.pos[v]); };
  std::map<size_t, V3L> want;
  LD tot = 0;
  for (Vertex v : m.vertices()) {
    V3L d, N;
    if (lap) {
      LD k = 0;
      for (Vertex u : v.adjacentVertices()) {
        d = d + X(u);
        k++;
      }
      d = d * (1 / k) - X(v);
    } else {
      LD A = 0;
      for (Face f : v.adjacentFaces()) {
        Halfedge h = f.halfedge();
        V3L p[3] = {X(h.vertex()), X(h.next().vertex()), X(h.next().next().vertex())};
        bool free = true;
        for (Edge e : f.adjacentEdges()) free = free && !e.isBoundary() && flippable[e];
        V3L u = p[1] - p[0], q = p[2] - p[0], n = cross(u, q), c;
        if (free) c = p[0] + (cross(n, u) * dot(q, q) + cross(q, n) * dot(u, u)) * (1 / (2 * dot(n, n)));
        else c = (p[0] + p[1] + p[2]) * (1.L / 3);
        d = d + (c - X(v)) * (norm(n) / 2);
        A += norm(n) / 2;
      }
      d = d * (1 / (2 * A));
    }
    LD nn = 0;
    for (Face f : v.adjacentFaces()) {
      Halfedge h = f.halfedge();
      while (h.vertex() != v) h = h.next();
      V3L u = X(h.tipVertex()) - X(v), q = X(h.next().tipVertex()) - X(v), n = cross(u, q);
      LD a = atan2l(norm(n), dot(u, q));
      N = N + unit(n) * a;
      nn += a;
    }
    if (norm(N) < .02 * nn) g.discard();
    N = unit(N);
    if (!v.isBoundary() || bc == RemeshBoundaryCondition::Free) d = d - N * dot(N, d);
    else if (bc == RemeshBoundaryCondition::Fixed) d = V3L();
    else {
      V3L t;
      for (Halfedge h : v.outgoingHalfedges())
        if (h.edge().isBoundary()) {
          V3L e = unit(X(h.tipVertex()) - X(v));
          t = t + (h.isInterior() ? e : e * -1.L); // along the boundary
        }
      if (norm(t) < .02) g.discard();
      t = unit(t);
      d = t * dot(t, d);
    }
    d = d * step;
    if (!rep[v]) d = V3L();
    want[v.getIndex()] = d;
    tot += norm(d);
  }
  double tol = 1e-8 * extent(w);
  double r;
  std::string nm = lap ? "smoothByLaplacian" : "smoothByCircumcenter";
  if (useMM) r = lap ? smoothByLaplacian(m, geo, mm, step, bc) : smoothByCircumcenter(m, geo, mm, step, bc);
  else r = lap ? smoothByLaplacian(m, geo, step, bc) : smoothByCircumcenter(m, geo, step, bc);
  for (Vertex v : m.vertices()) {
    Vector3 got = geo.inputVertexPositions[v], exp = dbl(X(v) + want[v.getIndex()]);
    REQ(g, near(got, exp, tol), nm << "(step " << step << "): a vertex " << (v.isBoundary() ? "of the boundary" : "inside") << " moved from " << strV(w.pos[v]) << " to " << strV(got) << ", expected " << strV(exp));
    if (!rep[v]) REQ(g, got == w.pos[v] && !seen.count(v.getIndex()), nm << " moved a fixed vertex");
    else if (useMM) REQ(g, seen.count(v.getIndex()) && near(w.pos[v] + seen[v.getIndex()], got, tol), nm << ": the callback was not told about the motion of a vertex");
  }
  REQ_NEAR(g, r, (double)(tot / m.nVertices()), tol, nm << ": returned mean motion");
  g.label(lap ? "laplacian" : "circumcenter");
  g.label(bc == RemeshBoundaryCondition::Fixed ? "fixed" : bc == RemeshBoundaryCondition::Free ? "free" : "tangential");
  if (useMM) g.label("mutation manager");
}

// ---------------------------------------------------------------- edge lengths
static void p_lengths(G& g) {
  GenOpts o;
  o.maxFaces = 40;
  Geo w = genTriGeo(g, o, true, .12, 3);
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  auto len = [&](Edge e) { return norm(geo.inputVertexPositions[e.firstVertex()] - geo.inputVertexPositions[e.secondVertex()]); };
  double mean = 0;
  for (Edge e : m.edges()) mean += len(e) / m.nEdges();
  RemeshOptions opt;
  bool rel = g.coin();
  double f = g.real(.4, 2.5);
  if (rel && g.chance(.4)) f = 1;
  opt.targetEdgeLength = rel ? -f : f * mean;
  opt.minRelativeLength = g.chance(.7) ? .05 : g.real(0, 1.8);
  double L = f * mean;
  bool plain = g.chance(.2), constrained = !plain && g.coin();
  MutationManager mm(m, geo);
  EdgeData<bool> spl(m, true), col(m, true);
  if (constrained) {
    for (Edge e : m.edges()) {
      spl[e] = !g.chance(.3);
      col[e] = !g.chance(.3);
    }
    mm.setSplittableEdges(spl);
    mm.setCollapsibleEdges(col);
  }
  std::map<size_t, double> len0;
  std::set<size_t> mustSplit, split;
  for (Edge e : m.edges()) {
    len0[e.getIndex()] = len(e);
    double l = len(e);
    if (std::fabs(l - 1.5 * L) < 1e-6 * L || std::fabs(l - opt.minRelativeLength * L) < 1e-6 * L || std::fabs(l - .5 * L) < 1e-6 * L) g.discard();
    if (l > 1.5 * L && l > opt.minRelativeLength * L && spl[e]) mustSplit.insert(e.getIndex());
  }
  std::string err;
  std::ostringstream eo;
  size_t nSplit = 0, nCol = 0, nV0 = m.nVertices();
  Vector3 mid, cpos;
  mm.registerEdgeSplitHandlers(
      [&](Edge e, double t) -> double {
        split.insert(e.getIndex());
        mid = (geo.inputVertexPositions[e.firstVertex()] + geo.inputVertexPositions[e.secondVertex()]) / 2;
        if (std::fabs(t - .5) > 1e-6) eo << "split at " << t << "; ";
        return len(e);
      },
      [&](Halfedge a, Halfedge b, double t, double l) {
        nSplit++;
        if (a.vertex() != b.vertex()) eo << "the halves do not start at the new vertex; ";
        if (!near(geo.inputVertexPositions[a.vertex()], mid, 1e-9 * extent(w))) eo << "the new vertex is not at the midpoint; ";
        if (std::fabs(len(a.edge()) + len(b.edge()) - l) > 1e-9 * extent(w)) eo << "the halves do not add up; ";
      });
  mm.registerEdgeCollapseHandlers(
      [&](Edge e, double t) -> int {
        if (!(len(e) < .5 * L * (1 + 1e-9))) eo << "collapse of an edge of length " << len(e) << "; ";
        if (!(t >= 0 && t <= 1)) eo << "collapse parameter " << t << "; ";
        if (split.count(e.getIndex())) eo << "a split edge is collapsed; ";
        Vertex a = e.firstVertex(), b = e.secondVertex();
        Vector3 pa = geo.inputVertexPositions[a], pb = geo.inputVertexPositions[b];
        cpos = (pa + pb) / 2;
        if (!e.isBoundary() && a.isBoundary()) cpos = pa;
        else if (!e.isBoundary() && b.isBoundary()) cpos = pb;
        return 0;
      },
      [&](Vertex v, double t, int) {
        nCol++;
        if (!near(geo.inputVertexPositions[v], cpos, 1e-9 * extent(w))) eo << "collapse to " << strV(geo.inputVertexPositions[v]) << " instead of " << strV(cpos) << "; ";
      });
  long chi, chi2;
  size_t comps, loops, comps2, loops2;
  topo(m, m, chi, comps, loops);
  bool r = plain ? adjustEdgeLengths(m, geo, opt) : adjustEdgeLengths(m, geo, mm, opt);
  std::ostringstream what;
  what << "adjustEdgeLengths(target " << opt.targetEdgeLength << ", mean " << mean << ", min " << opt.minRelativeLength << ")";
  REQ(g, eo.str().empty(), what.str() << ": " << eo.str());
  checkStructure(g, m, what.str());
  topo(m, m, chi2, comps2, loops2);
  REQ(g, chi == chi2 && comps == comps2 && loops == loops2, what.str() << " changed the topology");
  REQ(g, m.isCompressed(), what.str() << ": not compressed");
  if (!plain) {
    REQ(g, r == (nSplit + nCol > 0), what.str() << " returned " << r << " after " << nSplit << " splits and " << nCol << " collapses");
    REQ(g, nV0 + nSplit == m.nVertices() + nCol, what.str() << ": vertex count");
    REQ(g, split == mustSplit, what.str() << ": " << split.size() << " edges were split, expected " << mustSplit.size());
  } else if (!r)
    REQ(g, nV0 == m.nVertices(), what.str() << " returned false, but changed the mesh");
  for (Vertex v : m.vertices()) REQ(g, std::isfinite(norm(geo.inputVertexPositions[v])), what.str() << ": position " << strV(geo.inputVertexPositions[v]));
  g.label(rel ? "relative target" : "absolute target");
  g.label(nSplit ? nCol ? "splits and collapses" : "splits" : nCol ? "collapses" : "nothing to do");
  if (constrained) g.label("with constraints");
}

// ---------------------------------------------------------------- remesh
static std::set<std::pair<std::array<double, 3>, std::array<double, 3>>> boundaryPolygon(ManifoldSurfaceMesh& m, VertexData<Vector3>& pos) {
  std::set<std::pair<std::array<double, 3>, std::array<double, 3>>> r;
  for (Edge e : m.edges())
    if (e.isBoundary()) {
      Vector3 a = pos[e.halfedge().tailVertex()], b = pos[e.halfedge().tipVertex()];
      r.insert({{a.x, a.y, a.z}, {b.x, b.y, b.z}});
    }
  return r;
}

static void p_remesh(G& g) {
  GenOpts o;
  o.maxFaces = 30;
  o.size = 3;
  Geo w = genTriGeo(g, o, true, .2, 2);
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  double mean = 0;
  for (Edge e : m.edges()) mean += norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]) / m.nEdges();
  RemeshOptions opt;
  double f = g.real(.6, 1.6);
  opt.targetEdgeLength = g.coin() ? -f : f * mean;
  opt.maxIterations = g.range(1, 4);
  if (g.chance(.4)) opt.curvatureAdaptation = g.real(.05, 1) * w.scale;
  opt.smoothStyle = g.coin() ? RemeshSmoothStyle::Circumcentric : RemeshSmoothStyle::Laplacian;
  opt.boundaryCondition = g.coin() ? RemeshBoundaryCondition::Fixed : RemeshBoundaryCondition::Tangential;
  MutationManager mm(m, geo);
  bool keepBoundary = false, fixV = false, plain = g.chance(.2);
  VertexData<bool> fixedV(m, false);
  VertexData<Vector3> pos0(m, Vector3{0, 0, 0});
  if (!plain && g.coin()) {
    keepBoundary = true;
    opt.boundaryCondition = RemeshBoundaryCondition::Fixed;
    EdgeData<bool> ok(m, true);
    for (Edge e : m.edges())
      if (e.isBoundary()) ok[e] = false;
    mm.setSplittableEdges(ok);
    mm.setCollapsibleEdges(ok);
  }
  if (!plain && g.chance(.4)) {
    fixV = true;
    VertexData<bool> rep(m, true);
    for (Vertex v : m.vertices())
      if (g.chance(.2)) {
        rep[v] = false;
        fixedV[v] = true;
        pos0[v] = w.pos[v];
      }
    mm.setRepositionableVertices(rep);
  }
  size_t nFixed = 0;
  for (Vertex v : m.vertices()) nFixed += fixedV[v];
  auto poly0 = boundaryPolygon(m, w.pos);
  long chi, chi2;
  size_t comps, loops, comps2, loops2;
  topo(m, m, chi, comps, loops);
  long delta = 0;
  size_t nV0 = m.nVertices();
  mm.registerEdgeSplitPostHandler([&](Halfedge, Halfedge, double) { delta++; });
  mm.registerEdgeCollapsePostHandler([&](Vertex, double) { delta--; });
  geo.requireVertexDualAreas();
  if (plain) remesh(m, geo, opt);
  else remesh(m, geo, mm, opt);
  std::ostringstream what;
  what << "remesh(target " << opt.targetEdgeLength << ", mean " << mean << ", " << opt.maxIterations << " iterations, curvature " << opt.curvatureAdaptation << ", "
       << (opt.smoothStyle == RemeshSmoothStyle::Circumcentric ? "circumcentric)" : "laplacian)");
  checkStructure(g, m, what.str());
  topo(m, m, chi2, comps2, loops2);
  REQ(g, chi == chi2 && comps == comps2 && loops == loops2, what.str() << " changed the topology");
  REQ(g, m.isTriangular() && m.isCompressed(), what.str() << ": not a compressed triangle mesh");
  if (!plain) REQ(g, (long)nV0 + delta == (long)m.nVertices(), what.str() << ": the callbacks saw a change of " << delta << " vertices, it is " << (long)m.nVertices() - (long)nV0);
  size_t left = 0;
  bool degenerate = false;
  for (Face fc : m.faces()) degenerate = degenerate || !(geo.faceArea(fc) > 1e-6 * mean * mean);
  for (Vertex v : m.vertices()) {
    if (!degenerate) REQ(g, std::isfinite(norm(geo.inputVertexPositions[v])), what.str() << ": position " << strV(geo.inputVertexPositions[v]));
    if (fixedV[v]) {
      left++;
      REQ(g, geo.inputVertexPositions[v] == pos0[v], what.str() << " moved a fixed vertex");
    }
    LD A = 0;
    for (Face fc : v.adjacentFaces()) A += geo.faceArea(fc) / 3;
    if (!degenerate) REQ_NEAR(g, geo.vertexDualAreas[v], (double)A, 1e-8 * (double)A + 1e-14 * mean * mean, what.str() << ": the geometry is stale");
  }
  REQ(g, left == nFixed || !fixV, what.str() << ": " << nFixed - left << " fixed vertices disappeared");
  if (keepBoundary) REQ(g, boundaryPolygon(m, geo.inputVertexPositions) == poly0, what.str() << " changed the boundary, although its edges may not be split or collapsed");
  if (degenerate) g.label("degenerate output");
  g.label(plain ? "plain" : keepBoundary ? "boundary kept" : "mutation manager");
  if (delta) g.label("connectivity changed");
}

// n iterations are n times one iteration
static void p_remeshSteps(G& g) {
  GenOpts o;
  o.maxFaces = 30;
  o.size = 4;
  Geo w = genTriGeo(g, o, false, .2, 2);
  double mean = 0;
  for (Edge e : w.mesh->edges()) mean += norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]) / w.mesh->nEdges();
  RemeshOptions opt;
  opt.targetEdgeLength = g.real(.4, 1) * mean;
  opt.curvatureAdaptation = g.chance(.8) ? g.real(.1, 1) * w.scale : 0;
  opt.boundaryCondition = RemeshBoundaryCondition::Fixed;
  int n = g.range(2, 3);
  std::unique_ptr<ManifoldSurfaceMesh> c = w.man->copy();
  VertexData<Vector3> cp = w.pos.reinterpretTo(*c);
  opt.maxIterations = 1;
  for (int i = 0; i < n; i++) {
    VertexPositionGeometry geo(*w.mesh, w.pos);
    MutationManager mm(*w.man, geo);
    size_t flips = 0, changes = 0;
    mm.registerEdgeFlipPostHandler([&](Edge) { flips++; });
    mm.registerEdgeSplitPostHandler([&](Halfedge, Halfedge, double) { changes++; });
    mm.registerEdgeCollapsePostHandler([&](Vertex, double) { changes++; });
    remesh(*w.man, geo, mm, opt);
    w.pos = geo.inputVertexPositions;
    if ((flips == 0 || changes == 0) && i + 1 < n) {
      if (i == 0) g.discard();
      n = i + 1;
    }
  }
  for (Vertex v : w.mesh->vertices())
    if (!std::isfinite(norm(w.pos[v]))) g.discard();
  VertexPositionGeometry geo(*c, cp);
  opt.maxIterations = n;
  remesh(*c, geo, opt);
  REQ(g, c->nVertices() == w.mesh->nVertices() && c->nFaces() == w.mesh->nFaces(),
      "remesh with " << n << " iterations gives " << c->nVertices() << " vertices, " << n << " times one iteration " << w.mesh->nVertices());
  REQ(g, c->getFaceVertexList() == w.mesh->getFaceVertexList(), "remesh with " << n << " iterations and " << n << " times one iteration give different faces");
  for (Vertex v : c->vertices()) {
    Vector3 a = geo.inputVertexPositions[v], b = w.pos[w.mesh->vertex(v.getIndex())];
    REQ(g, near(a, b, 1e-6 * (mean + norm(b))), "remesh with " << n << " iterations puts a vertex at " << strV(a) << ", " << n << " times one iteration at " << strV(b));
  }
  g.label(opt.curvatureAdaptation > 0 ? "curvature adapted" : "uniform");
}
#include "mutman.h"

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C27",
                   "nontrivial: the mesh has more than 4 faces",
                   {{"linear and Catmull-Clark subdivision", p_quadSubdivide, 1200, 10000},
                    {"Loop subdivision", p_loop, 1000, 10000},
                    {"quadric simplification of a box", p_qemBox, 800, 8000},
                    {"quadric simplification", p_qem, 1500, 20000},
                    {"extrinsic Delaunay flips", p_delaunay, 2000, 20000},
                    {"tangential smoothing", p_smooth, 2000, 20000},
                    {"edge length adjustment", p_lengths, 2000, 20000},
                    {"remeshing", p_remesh, 1200, 12000},
                    {"remeshing step by step", p_remeshSteps, 800, 8000}},
                   {"floating point tolerances are relative to the size of the input"}});
  specs.push_back({"C33",
                   "nontrivial: the history has at least 3 mutations which changed the mesh",
                   {{"mutation histories", p_mutman, 4000, 40000}},
                   {"the before callback of a collapse may be called although the collapse turns out to be impossible (as the code says)"}});
  return pbt::run(argc, argv, specs);
}
