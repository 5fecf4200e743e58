// C01 (construction) and C02 (navigation and queries)
#include "mutate.h"
#include "pbt_main.h"

#include "geometrycentral/surface/surface_mesh_factories.h"

using namespace mg;

static bool dense(const Polys& p) {
  size_t mx = 0;
  std::set<size_t> s;
  for (auto& q : p)
    for (size_t v : q) {
      mx = std::max(mx, v);
      s.insert(v);
    }
  return s.size() == mx + 1;
}

// ---- C01
static void constructManifold(G& g) {
  Soup s;
  if (g.coin()) {
    GenOpts o;
    s = genManifold(g, o);
  } else
    s = genGeneral(g, 12, g.coin());
  RefMesh r(s.polys, s.nV());
  bool ok = r.manifoldOriented();
  g.note(s.desc, " ", str(s.polys));
  g.label(ok ? "manifold" : "not manifold");
  g.label(r.hasBoundary() ? "boundary" : "closed");
  if (!ok) {
    if (s.polys.size() > 1) g.nontrivial();
    REQ_THROWS(g, ManifoldSurfaceMesh m(s.polys), "the surface is not an oriented manifold");
    return;
  }
  if (s.polys.size() > 2) g.nontrivial();
  ManifoldSurfaceMesh m(s.polys);
  REQ(g, readPolys(m) == s.polys, "faces read back differ: " << str(readPolys(m)));
  REQ(g, m.isCompressed(), "not compressed");
  checkStructure(g, m, "constructed");
  auto loops = r.boundaryLoops();
  REQ(g, m.nBoundaryLoops() == loops.size(), "boundary loops");
  REQ(g, m.nEdges() == r.edges.size() && m.nInteriorHalfedges() == r.nInterior(), "edge counts");
}

static void constructGeneral(G& g) {
  Soup s = genGeneral(g, 12, g.coin());
  g.note(s.desc, " ", str(s.polys));
  RefMesh r(s.polys, s.nV());
  g.label(r.manifoldOriented() ? "manifold" : "not manifold");
  if (s.polys.size() > 1) g.nontrivial();
  SurfaceMesh m(s.polys);
  REQ(g, readPolys(m) == s.polys, "faces read back differ: " << str(readPolys(m)));
  checkStructure(g, m, "constructed");
  REQ(g, m.nEdges() == r.edges.size() && m.nHalfedges() == r.nInterior(), "counts");
  for (Edge e : m.edges()) {
    VPair k = mk(e.firstVertex().getIndex(), e.secondVertex().getIndex());
    REQ(g, r.edges.count(k) && r.edges[k].size() == e.degree(), "sides of edge " << k.first << "-" << k.second << " are not shared");
  }
}

static void constructReject(G& g) {
  GenOpts o;
  o.size = 3;
  Soup s = genManifold(g, o);
  Polys p = s.polys;
  size_t f = g.below(p.size());
  int kind = (int)g.below(4);
  switch (kind) {
  case 0: // skip an index: unreferenced vertex
  {
    size_t k = g.below(s.nV());
    for (auto& q : p)
      for (size_t& v : q)
        if (v >= k) v++;
    break;
  }
  case 1: p[f].resize(2); break;
  case 2: { // repeated neighbour
    size_t i = g.below(p[f].size());
    p[f].insert(p[f].begin() + i, p[f][i]);
    break;
  }
  default: // the same face twice (same direction)
    p.push_back(p[f]);
  }
  g.note("kind ", kind, " ", str(p));
  g.label("kind " + std::to_string(kind));
  g.nontrivial();
  REQ_THROWS(g, ManifoldSurfaceMesh m(p), "malformed input accepted by ManifoldSurfaceMesh");
  if (kind < 2) REQ_THROWS(g, SurfaceMesh m(p), "malformed input accepted by SurfaceMesh");
}

template <typename M>
static void fromMatrix(G& g, const Soup& s, int what) {
  size_t d = s.polys[0].size();
  auto chk = [&](M& m) {
    REQ(g, readPolys(m) == s.polys, "faces read back differ");
    checkStructure(g, m, "from matrix");
  };
  auto fill = [&](auto& A) {
    for (size_t i = 0; i < s.polys.size(); i++)
      for (size_t j = 0; j < d; j++) A(i, j) = s.polys[i][j];
  };
  if (what == 0) {
    DenseMatrix<int> A(s.polys.size(), d);
    fill(A);
    M m(A);
    chk(m);
  } else if (what == 1) {
    DenseMatrix<size_t> A(s.polys.size(), d);
    fill(A);
    M m(A);
    chk(m);
  } else if (what == 2) {
    Eigen::Matrix<int64_t, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> A(s.polys.size(), d);
    fill(A);
    M m(A);
    chk(m);
  } else {
    Eigen::Matrix<unsigned, Eigen::Dynamic, Eigen::Dynamic> A(s.polys.size() + 2, d + 1);
    A.setZero();
    Eigen::Matrix<unsigned, Eigen::Dynamic, Eigen::Dynamic> B(s.polys.size(), d);
    fill(B);
    A.block(1, 1, s.polys.size(), d) = B;
    M m(A.block(1, 1, s.polys.size(), d)); // an expression, not a plain matrix
    chk(m);
  }
}
static void constructMatrix(G& g) {
  GenOpts o;
  o.tri = g.coin();
  if (!o.tri) o.edits = 0;
  Soup s = genManifold(g, o);
  for (auto& p : s.polys)
    if (p.size() != s.polys[0].size()) g.discard();
  int what = (int)g.below(4);
  g.note(s.desc, " ", str(s.polys), " matrix kind ", what);
  if (s.polys.size() > 2) g.nontrivial();
  fromMatrix<ManifoldSurfaceMesh>(g, s, what);
  fromMatrix<SurfaceMesh>(g, s, what);
}

static void constructTwins(G& g) {
  Glued q;
  if (g.chance(.7)) {
    q = genGlued(g, 8, g.coin());
  } else { // an ordinary surface with its adjacency written out
    GenOpts o;
    Soup s = genManifold(g, o);
    RefMesh r(s.polys, s.nV());
    q.polys = s.polys;
    for (auto& p : s.polys) q.twins.push_back(std::vector<std::tuple<size_t, size_t>>(p.size(), std::make_tuple(INVALID_IND, INVALID_IND)));
    for (auto& e : r.edges)
      if (e.second.size() == 2)
        for (int i = 0; i < 2; i++) q.twins[e.second[i].f][e.second[i].s] = std::make_tuple(e.second[1 - i].f, e.second[1 - i].s);
  }
  std::ostringstream os;
  for (auto& t : q.twins) {
    os << "[";
    for (auto& x : t)
      if (std::get<0>(x) == INVALID_IND) os << "- ";
      else os << std::get<0>(x) << "." << std::get<1>(x) << " ";
    os << "]";
  }
  g.note(str(q.polys), " twins ", os.str());
  if (q.selfEdge) {
    g.label("self edge");
    REQ_THROWS(g, ManifoldSurfaceMesh(q.polys, q.twins), "self edge accepted");
    return;
  }
  g.nontrivial();
  ManifoldSurfaceMesh m(q.polys, q.twins);
  REQ(g, readPolys(m) == q.polys, "faces read back differ");
  checkStructure(g, m, "from twins");
  std::vector<std::vector<Halfedge>> side(q.polys.size());
  for (size_t f = 0; f < q.polys.size(); f++)
    for (Halfedge h : m.face(f).adjacentHalfedges()) side[f].push_back(h);
  std::set<size_t> bdyHe;
  for (size_t f = 0; f < q.polys.size(); f++)
    for (size_t s = 0; s < q.polys[f].size(); s++) {
      size_t tf = std::get<0>(q.twins[f][s]), ts = std::get<1>(q.twins[f][s]);
      if (tf == INVALID_IND) {
        REQ(g, !side[f][s].twin().isInterior() && side[f][s].edge().isBoundary(), "side without twin is not boundary");
        bdyHe.insert(side[f][s].twin().getIndex());
      } else
        REQ(g, side[f][s].twin() == side[tf][ts], "twin of side " << f << "." << s);
    }
  REQ(g, m.nExteriorHalfedges() == bdyHe.size(), "exterior halfedges");
  // boundary loops: predecessor of an exterior halfedge found by rotating inside the surface
  for (size_t h : bdyHe) {
    Halfedge x = m.halfedge(h).twin(); // interior a -> b ; exterior b -> a continues from the next boundary side at a
    Halfedge y = x;
    // rotate about the tail of x: previous side in the face, then its twin, until exterior
    size_t guard = 0;
    do {
      Halfedge p = y;
      while (p.next() != y) p = p.next();
      y = p.twin();
    } while (y.isInterior() && ++guard < 10000);
    REQ(g, m.halfedge(h).next() == y, "next along the boundary");
  }
  g.label(bdyHe.empty() ? "closed" : "boundary");
}

static void factories(G& g) {
  bool manifold = g.coin();
  Soup s;
  if (manifold) {
    GenOpts o;
    o.tri = g.coin();
    s = genManifold(g, o);
  } else
    s = genGeneral(g, 10, g.coin());
  std::vector<std::vector<Vector2>> uv;
  for (auto& p : s.polys) {
    uv.emplace_back();
    for (size_t i = 0; i < p.size(); i++) uv.back().push_back(Vector2{g.real(-3, 3), g.real(-3, 3)});
  }
  g.note(manifold ? "manifold " : "general ", s.desc, " ", str(s.polys));
  if (s.polys.size() > 1) g.nontrivial();
  auto check = [&](SurfaceMesh& m, VertexPositionGeometry& geo, CornerData<Vector2>* c) {
    REQ(g, readPolys(m) == s.polys, "connectivity");
    for (size_t i = 0; i < s.nV(); i++) REQ(g, geo.vertexPositions[m.vertex(i)] == s.pos[i], "position of vertex " << i);
    if (c)
      for (size_t f = 0; f < s.polys.size(); f++) {
        Halfedge h = m.face(f).halfedge();
        for (size_t j = 0; j < s.polys[f].size(); j++, h = h.next()) REQ(g, (*c)[h.corner()] == uv[f][j], "texture coordinate of face " << f << " corner " << j);
      }
  };
  bool uniform = true;
  for (auto& p : s.polys) uniform = uniform && p.size() == s.polys[0].size();
  DenseMatrix<double> VM(s.nV(), 3);
  for (size_t i = 0; i < s.nV(); i++)
    for (int k = 0; k < 3; k++) VM(i, k) = s.pos[i][k];
  DenseMatrix<int> FM(s.polys.size(), s.polys[0].size());
  if (uniform)
    for (size_t i = 0; i < s.polys.size(); i++)
      for (size_t j = 0; j < s.polys[0].size(); j++) FM(i, j) = (int)s.polys[i][j];
  if (manifold) {
    auto a = makeManifoldSurfaceMeshAndGeometry(s.polys, s.pos);
    check(*std::get<0>(a), *std::get<1>(a), nullptr);
    auto b = makeParameterizedManifoldSurfaceMeshAndGeometry(s.polys, s.pos, uv);
    check(*std::get<0>(b), *std::get<1>(b), std::get<2>(b).get());
    if (uniform) {
      auto c = makeManifoldSurfaceMeshAndGeometry(VM, FM);
      check(*std::get<0>(c), *std::get<1>(c), nullptr);
    }
  } else {
    auto a = makeSurfaceMeshAndGeometry(s.polys, s.pos);
    check(*std::get<0>(a), *std::get<1>(a), nullptr);
    auto b = makeParameterizedSurfaceMeshAndGeometry(s.polys, s.pos, uv);
    check(*std::get<0>(b), *std::get<1>(b), std::get<2>(b).get());
    if (uniform) {
      auto c = makeSurfaceMeshAndGeometry(VM, FM);
      check(*std::get<0>(c), *std::get<1>(c), nullptr);
    }
  }
}

// ---- C02
static void queriesManifold(G& g) {
  GenOpts o;
  Soup s = genManifold(g, o);
  RefMesh r(s.polys, s.nV());
  if (!r.manifoldOriented()) g.fail("generator error");
  g.note(s.desc, " ", str(s.polys));
  g.label(r.hasBoundary() ? "boundary" : "closed");
  if (s.polys.size() > 2) g.nontrivial();
  ManifoldSurfaceMesh m(s.polys);
  checkStructure(g, m, "mesh");
  checkQueries(g, m, r, "mesh");
}
static void queriesGeneral(G& g) {
  Soup s = genGeneral(g, 12, g.coin());
  RefMesh r(s.polys, s.nV());
  g.note(s.desc, " ", str(s.polys));
  g.label(r.manifoldOriented() ? "manifold" : "not manifold");
  if (s.polys.size() > 1) g.nontrivial();
  SurfaceMesh m(s.polys);
  checkStructure(g, m, "mesh");
  checkQueries(g, m, r, "mesh");
}
static void queriesAfterEdits(G& g) {
  GenOpts o;
  o.size = 3;
  o.edits = 3;
  Soup s = genManifold(g, o);
  ManifoldSurfaceMesh m(s.polys);
  int n = g.range(1, 10), did = 0;
  for (int i = 0; i < n; i++) {
    // operations are judged by C03/C04; here a misbehaving one only ends the case
    if (mutateManifold(g, m, "edit")) did++;
  }
  if (g.chance(.3)) m.compress();
  Model a = snap(m);
  if (hasSelfEdgeOrDup(a)) {
    g.label("not simplicial");
    checkStructure(g, m, "edited");
    return;
  }
  g.note(did, " edits");
  if (did) g.nontrivial();
  g.label(m.isCompressed() ? "compressed" : "with gaps");
  RefMesh r(readPolys(m), m.nVertices());
  checkStructure(g, m, "edited");
  checkQueries(g, m, r, "edited");
}
static void queriesAfterGeneralEdits(G& g) {
  Soup s = genGeneral(g, 8, g.coin());
  g.note(s.desc, " ", str(s.polys));
  SurfaceMesh m(s.polys);
  int n = g.range(1, 6), did = 0;
  for (int i = 0; i < n; i++)
    switch (g.below(3)) {
    case 0: did += opFlip(g, m, "edit"); break;
    case 1: did += opInvert(g, m, "edit"); break;
    default: did += opDuplicate(g, m, "edit");
    }
  if (g.chance(.3)) m.compress();
  Polys p = readPolys(m);
  // edges must still be vertex pairs for the reference model
  std::map<size_t, VPair> ends;
  std::map<VPair, size_t> by;
  for (Edge e : m.edges()) {
    VPair k = mk(e.firstVertex().getIndex(), e.secondVertex().getIndex());
    if (k.first == k.second || by.count(k)) g.discard();
    by[k] = e.getIndex();
  }
  for (auto q : p) {
    std::sort(q.begin(), q.end());
    if (std::unique(q.begin(), q.end()) != q.end()) g.discard();
  }
  if (did) g.nontrivial();
  RefMesh r(p, m.nVertices());
  checkStructure(g, m, "edited");
  checkQueries(g, m, r, "edited");
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C01",
                   "polygon lists: manifold surfaces (grids, cylinders, tori, voxel surfaces, fans, platonic solids; up to ~240 faces, several "
                   "components) edited at random, damaged ones, random soups, random side gluings; non-trivial: more than one or two faces",
                   {{"manifold", constructManifold, 6000, 120000},
                    {"general", constructGeneral, 6000, 120000},
                    {"reject", constructReject, 3000, 60000},
                    {"matrix", constructMatrix, 1500, 30000},
                    {"twins", constructTwins, 6000, 120000},
                    {"factories", factories, 2000, 40000}},
                   {"faces do not repeat a vertex except where rejection is expected"}});
  specs.push_back({"C02",
                   "the meshes of C01 plus meshes reached by random edit sequences (with and without gaps in the index space); every query, "
                   "navigator, iterator and counter is compared with a reference model on the polygon lists; non-trivial: >2 faces and, for "
                   "the edited ones, at least one edit that took effect",
                   {{"manifold", queriesManifold, 5000, 100000},
                    {"general", queriesGeneral, 6000, 120000},
                    {"edited", queriesAfterEdits, 4000, 80000},
                    {"edited-general", queriesAfterGeneralEdits, 4000, 80000}},
                   {"simplicial meshes (an edge is a pair of vertices); general structure of Delta-complexes is covered by C01/C03"}});
  return pbt::run(argc, argv, specs);
}
