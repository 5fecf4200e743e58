// C07 metric quantities, C08 operators, C09 the quantity caches, C10 tangent spaces and transport
#include "geomutil.h"
#include "pbt_main.h"

using namespace mg;

static bool near(LD a, LD b, LD tol) { return fabsl(a - b) <= tol; }
#define NEARL(g, a, b, tol, msg)                                                                                       \
  do {                                                                                                                 \
    LD a_ = (a), b_ = (b), t_ = (tol);                                                                                 \
    if (!near(a_, b_, t_)) {                                                                                           \
      std::ostringstream os_;                                                                                          \
      os_.precision(16);                                                                                               \
      os_ << "[" #a " ~ " #b "] " << (double)a_ << " vs " << (double)b_ << " (tol " << (double)t_ << ") " << msg;      \
      (g).fail(os_.str());                                                                                             \
    }                                                                                                                  \
  } while (0)

static std::unique_ptr<EdgeLengthGeometry> elgOf(const Geo& w) {
  EdgeData<double> l(*w.mesh);
  for (Edge e : w.mesh->edges()) l[e] = norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]);
  return std::unique_ptr<EdgeLengthGeometry>(new EdgeLengthGeometry(*w.mesh, l));
}

// ---------------------------------------------------------------- C07
static void checkIntrinsicMetric(G& g, IntrinsicGeometryInterface& geo, const TriOracle& o, double tol, const std::string& w) {
  SurfaceMesh& m = geo.mesh;
  geo.requireEdgeLengths();
  geo.requireFaceAreas();
  geo.requireVertexDualAreas();
  geo.requireCornerAngles();
  geo.requireVertexAngleSums();
  geo.requireCornerScaledAngles();
  geo.requireVertexGaussianCurvatures();
  geo.requireFaceGaussianCurvatures();
  geo.requireHalfedgeCotanWeights();
  geo.requireEdgeCotanWeights();
  geo.requireShapeLengthScale();
  geo.requireMeshLengthScale();
  LD lmax = 0, lsum = 0;
  for (Edge e : m.edges()) {
    lmax = std::max(lmax, o.L(e));
    lsum += o.L(e);
  }
  for (Edge e : m.edges()) NEARL(g, geo.edgeLengths[e], o.L(e), tol * lmax, w << " edge length");
  std::vector<LD> dual(m.nVerticesCapacity(), 0), cotE(m.nEdgesCapacity(), 0);
  LD total = 0;
  for (Face f : m.faces()) {
    NEARL(g, geo.faceAreas[f], o.A(f), tol * lmax * lmax, w << " face area");
    total += o.A(f);
    LD fk = -LPI;
    for (Halfedge h : f.adjacentHalfedges()) {
      dual[h.vertex().getIndex()] += o.A(f) / 3;
      size_t i = h.getIndex();
      cotE[h.edge().getIndex()] += o.cot[i] / 2;
      NEARL(g, geo.cornerAngles[h.corner()], o.ang[i], tol, w << " corner angle");
      NEARL(g, geo.cornerScaledAngles[h.corner()], o.scaled[i], 10 * tol, w << " scaled corner angle");
      NEARL(g, geo.halfedgeCotanWeights[h], o.cot[i] / 2, 100 * tol * (1 + fabsl(o.cot[i])), w << " halfedge cotan weight");
      fk += o.scaled[i];
    }
    NEARL(g, geo.faceGaussianCurvatures[f], fk, 30 * tol, w << " face curvature");
  }
  if (m.usesImplicitTwin())
    for (Halfedge h : m.exteriorHalfedges()) REQ(g, geo.halfedgeCotanWeights[h] == 0., w << " cotan weight of an exterior halfedge");
  for (Edge e : m.edges())
    NEARL(g, geo.edgeCotanWeights[e], cotE[e.getIndex()], 1000 * tol, w << " edge cotan weight");
  LD K = 0, KB = 0, fK = 0;
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    NEARL(g, geo.vertexDualAreas[v], dual[i], 10 * tol * lmax * lmax, w << " dual area");
    NEARL(g, geo.vertexAngleSums[v], o.angSum[i], 10 * tol, w << " angle sum");
    LD k = o.vb[i] ? 0 : 2 * LPI - o.angSum[i];
    NEARL(g, geo.vertexGaussianCurvatures[v], k, 10 * tol, w << " Gaussian curvature");
    K += geo.vertexGaussianCurvatures[v];
    if (o.vb[i]) KB += LPI - geo.vertexAngleSums[v];
  }
  for (Face f : m.faces()) fK += geo.faceGaussianCurvatures[f];
  NEARL(g, geo.shapeLengthScale, sqrtl(total), 10 * tol * sqrtl(total), w << " shape length scale");
  NEARL(g, geo.meshLengthScale, lsum / m.nEdges(), 10 * tol * lmax, w << " mesh length scale");
  if (m.usesImplicitTwin()) { // Gauss-Bonnet
    LD chi = (LD)m.nVertices() - (LD)m.nEdges() + (LD)m.nFaces();
    NEARL(g, K + KB, 2 * LPI * chi, 100 * tol * m.nFaces(), w << " Gauss-Bonnet (vertices)");
    if (m.nFaces() * 3 == 2 * m.nEdges()) NEARL(g, fK, 2 * LPI * chi, 100 * tol * m.nFaces(), w << " Gauss-Bonnet (faces)");
  }
}

template <typename GEO>
static void checkImmediateIntrinsic(G& g, GEO& geo, const TriOracle& o, double tol, const std::string& w) {
  SurfaceMesh& m = geo.mesh;
  LD lmax = 0;
  for (Edge e : m.edges()) lmax = std::max(lmax, o.L(e));
  std::vector<LD> cotE(m.nEdgesCapacity(), 0), dual(m.nVerticesCapacity(), 0);
  for (Face f : m.faces()) {
    NEARL(g, geo.faceArea(f), o.A(f), tol * lmax * lmax, w << " faceArea()");
    for (Halfedge h : f.adjacentHalfedges()) {
      size_t i = h.getIndex();
      NEARL(g, geo.cornerAngle(h.corner()), o.ang[i], tol, w << " cornerAngle()");
      NEARL(g, geo.halfedgeCotanWeight(h), o.cot[i] / 2, 100 * tol * (1 + fabsl(o.cot[i])), w << " halfedgeCotanWeight()");
      cotE[h.edge().getIndex()] += o.cot[i] / 2;
      dual[h.vertex().getIndex()] += o.A(f) / 3;
    }
  }
  for (Edge e : m.edges()) NEARL(g, geo.edgeCotanWeight(e), cotE[e.getIndex()], 1000 * tol, w << " edgeCotanWeight()");
  if (m.usesImplicitTwin())
    for (Halfedge h : m.exteriorHalfedges()) REQ(g, geo.halfedgeCotanWeight(h) == 0., w << " halfedgeCotanWeight() of an exterior halfedge");
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    NEARL(g, geo.vertexDualArea(v), dual[i], 10 * tol * lmax * lmax, w << " vertexDualArea()");
    NEARL(g, geo.vertexGaussianCurvature(v), o.vb[i] ? 0 : 2 * LPI - o.angSum[i], 10 * tol, w << " vertexGaussianCurvature()");
  }
}

static void metricManifold(G& g) {
  Geo w = genTriGeo(g);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  checkIntrinsicMetric(g, *w.vpg, o, 1e-9, "positions:");
  checkImmediateIntrinsic(g, *w.vpg, o, 1e-9, "positions:");
  auto e = elgOf(w);
  checkIntrinsicMetric(g, *e, o, 1e-8, "lengths:");
  checkImmediateIntrinsic(g, *e, o, 1e-8, "lengths:");
  for (Face f : w.mesh->faces()) {
    LD p = 1;
    for (Edge ed : f.adjacentEdges()) p *= o.L(ed);
    NEARL(g, e->faceCircumradius(f), p / (4 * o.A(f)), 1e-7 * p / o.A(f), "circumradius");
  }
  for (Edge ed : w.mesh->edges()) NEARL(g, w.vpg->edgeLength(ed), o.L(ed), 1e-9 * o.L(ed) + 1e-14 * w.scale, "edgeLength()");
}

static void metricGeneral(G& g) {
  Geo w = genGeneralTriGeo(g);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  checkIntrinsicMetric(g, *w.vpg, o, 1e-9, "positions:");
  checkImmediateIntrinsic(g, *w.vpg, o, 1e-9, "positions:");
  auto e = elgOf(w);
  checkIntrinsicMetric(g, *e, o, 1e-7, "lengths:");
  checkImmediateIntrinsic(g, *e, o, 1e-7, "lengths:");
}

struct Delta {
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  EdgeData<double> len;
};
// a Delta-complex (random side gluing without self-edges, then random flips) with edge lengths in [1, 1.7]
static Delta genDelta(G& g) {
  Glued q = genGlued(g, 14, true);
  if (q.selfEdge) g.discard();
  Delta d;
  d.mesh.reset(new ManifoldSurfaceMesh(q.polys, q.twins));
  int k = g.range(0, 6);
  for (int i = 0; i < k; i++) d.mesh->flip(pickEdge(g, *d.mesh), false);
  d.len = EdgeData<double>(*d.mesh);
  double sc = g.chance(.3) ? std::pow(10., g.jitter(4)) : 1.;
  double hi = g.real(1, 1.7);
  for (Edge e : d.mesh->edges()) d.len[e] = sc * g.real(1, hi);
  g.note(str(q.polys), " flips=", k);
  if (q.polys.size() > 2) g.nontrivial();
  g.label("Delta-complex");
  return d;
}

static void metricDelta(G& g) {
  Delta d = genDelta(g);
  EdgeLengthGeometry geo(*d.mesh, d.len);
  TriOracle o = oracleOf(*d.mesh, d.len);
  checkIntrinsicMetric(g, geo, o, 1e-9, "delta:");
  checkImmediateIntrinsic(g, geo, o, 1e-9, "delta:");
}

static V3L vecArea(const std::vector<V3L>& p) {
  V3L n;
  for (size_t i = 0; i < p.size(); i++) n = n + cross(p[i] - p[0], p[(i + 1) % p.size()] - p[0]);
  return n * .5L;
}

// extrinsic quantities; triangles=false: only those documented for polygons
static void checkExtrinsic(G& g, Geo& w, bool triangles, bool manifold) {
  SurfaceMesh& m = *w.mesh;
  VertexPositionGeometry& geo = *w.vpg;
  geo.requireVertexPositions();
  geo.requireFaceNormals();
  geo.requireVertexNormals();
  geo.requireEdgeLengths();
  geo.requireFaceAreas();
  geo.requireCornerAngles();
  std::vector<V3L> fn(m.nFacesCapacity() + 1), vn(m.nVerticesCapacity());
  std::vector<LD> fa(m.nFacesCapacity() + 1), va(m.nVerticesCapacity(), 0);
  std::vector<bool> thin(m.nFacesCapacity() + 1);
  LD lmax = 0;
  for (Edge e : m.edges()) {
    LD l = norm(V3L(w.pos[e.firstVertex()]) - V3L(w.pos[e.secondVertex()]));
    lmax = std::max(lmax, l);
    NEARL(g, geo.edgeLengths[e], l, 1e-10 * (l + w.scale), "edge length");
  }
  for (Vertex v : m.vertices()) REQ(g, geo.vertexPositions[v] == w.pos[v] && geo.inputVertexPositions[v] == w.pos[v], "positions");
  for (Face f : m.faces()) {
    std::vector<V3L> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(w.pos[v]);
    V3L n = vecArea(p);
    fa[f.getIndex()] = norm(n);
    LD per = 0;
    for (size_t i = 0; i < p.size(); i++) per += norm(p[(i + 1) % p.size()] - p[i]);
    thin[f.getIndex()] = norm(n) < 1e-3 * per * per;
    if (!thin[f.getIndex()]) {
      fn[f.getIndex()] = unit(n);
      NEARL(g, norm(V3L(geo.faceNormals[f]) - fn[f.getIndex()]), 0, 1e-9, "face normal");
      NEARL(g, norm(V3L(geo.faceNormal(f)) - fn[f.getIndex()]), 0, 1e-9, "faceNormal()");
    }
    NEARL(g, geo.faceAreas[f], norm(n), 1e-9 * lmax * lmax + 1e-12 * w.scale * w.scale, "face area");
    for (Halfedge h : f.adjacentHalfedges()) {
      Halfedge prev = h;
      while (prev.next() != h) prev = prev.next();
      V3L a = V3L(w.pos[h.next().vertex()]) - V3L(w.pos[h.vertex()]), b = V3L(w.pos[prev.vertex()]) - V3L(w.pos[h.vertex()]);
      LD t = atan2l(norm(cross(a, b)), dot(a, b));
      LD tol = 1e-9 + 1e-7 * (t > 3.1 || t < .02 ? 1 : 0);
      NEARL(g, geo.cornerAngles[h.corner()], t, tol, "corner angle");
      vn[h.vertex().getIndex()] = vn[h.vertex().getIndex()] + fn[f.getIndex()] * t;
      va[h.vertex().getIndex()] += t;
      if (thin[f.getIndex()]) va[h.vertex().getIndex()] = 1e30; // ill-conditioned
      NEARL(g, norm(V3L(geo.halfedgeVector(h)) - a), 0, 1e-10 * lmax, "halfedgeVector()");
    }
  }
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    if (va[i] < 1e20 && norm(vn[i]) > .05 * va[i])
      NEARL(g, norm(V3L(geo.vertexNormals[v]) - unit(vn[i])), 0, 1e-7, "vertex normal");
  }
  // dihedral angles
  geo.requireEdgeDihedralAngles();
  std::vector<LD> dih(m.nEdgesCapacity(), 0);
  for (Edge e : m.edges()) {
    size_t nf = 0;
    for (Face f : e.adjacentFaces()) {
      (void)f;
      nf++;
    }
    if (nf != 2) {
      REQ(g, geo.edgeDihedralAngles[e] == 0., "dihedral angle of a boundary or nonmanifold edge");
      REQ(g, geo.edgeDihedralAngle(e) == 0., "edgeDihedralAngle() of a boundary or nonmanifold edge");
      continue;
    }
    if (!e.isOriented()) continue;
    Halfedge h = e.halfedge();
    Halfedge h2 = h.sibling();
    if (thin[h.face().getIndex()] || thin[h2.face().getIndex()]) continue;
    V3L n1 = fn[h.face().getIndex()], n2 = fn[h2.face().getIndex()];
    V3L d = unit(V3L(w.pos[h.tipVertex()]) - V3L(w.pos[h.tailVertex()]));
    LD t = atan2l(dot(d, cross(n1, n2)), dot(n1, n2));
    if (hypotl(dot(d, cross(n1, n2)), dot(n1, n2)) < .02) continue; // normal along the edge: no angle is defined
    dih[e.getIndex()] = t;
    LD have = geo.edgeDihedralAngles[e], imm = geo.edgeDihedralAngle(e);
    auto diff = [](LD a, LD b) {
      LD x = fabsl(a - b);
      return std::min(x, fabsl(x - 2 * LPI));
    };
    NEARL(g, diff(have, t), 0, 1e-8, "dihedral angle " << (double)have << " normals " << dbl(n1) << dbl(n2) << " edge " << dbl(d));
    NEARL(g, diff(imm, t), 0, 1e-8, "edgeDihedralAngle()");
    if (fabsl(fabsl(t) - LPI) < 1e-6) dih[e.getIndex()] = have;
    if (triangles) { // independently of normals: convex iff the apex of the other side lies below the plane
      V3L c = w.pos[h2.next().next().vertex()];
      LD s = dot(n1, c - V3L(w.pos[h.vertex()]));
      if (fabsl(s) > 1e-6 * lmax) REQ(g, (s < 0) == (have > 0), "sign of the dihedral angle " << (double)have);
    }
  }
  if (!manifold || !triangles) return;
  TriOracle o = oracleOf(m, w.pos);
  geo.requireVertexMeanCurvatures();
  geo.requireVertexMinPrincipalCurvatures();
  geo.requireVertexMaxPrincipalCurvatures();
  geo.requireVertexDualMeanCurvatureNormals();
  geo.requireVertexPrincipalCurvatureDirections();
  geo.requireFacePrincipalCurvatureDirections();
  std::vector<LD> H(m.nVerticesCapacity(), 0), D(m.nVerticesCapacity(), 0);
  std::vector<V3L> grad(m.nVerticesCapacity());
  std::vector<LC> pd(m.nVerticesCapacity(), LC(0)), pf(m.nFacesCapacity() + 1, LC(0));
  for (Edge e : m.edges()) {
    for (Vertex v : {e.firstVertex(), e.secondVertex()}) H[v.getIndex()] += dih[e.getIndex()] * o.L(e) / 4;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
      LC z = o.vecInVertex(h);
      pd[h.vertex().getIndex()] += -z * z / o.L(e) * dih[e.getIndex()] / (LD)4;
      if (h.isInterior()) {
        LC y = o.vecInFace(h);
        pf[h.face().getIndex()] += -y * y / o.L(e) * dih[e.getIndex()] / (LD)4;
      }
    }
  }
  for (Face f : m.faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      D[h.vertex().getIndex()] += o.A(f) / 3;
      V3L opp = V3L(w.pos[h.next().tipVertex()]) - V3L(w.pos[h.next().tailVertex()]);
      V3L gr = cross(fn[f.getIndex()], opp) * .5L; // gradient of the area at the tail
      grad[h.vertex().getIndex()] = grad[h.vertex().getIndex()] + gr;
    }
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    NEARL(g, geo.vertexMeanCurvatures[v], H[i], 1e-8 * lmax * 20, "mean curvature");
    NEARL(g, geo.vertexMeanCurvature(v), H[i], 1e-8 * lmax * 20, "vertexMeanCurvature()");
    LD h = H[i] / D[i], k = (o.vb[i] ? 0 : 2 * LPI - o.angSum[i]) / D[i];
    LD c = sqrtl(fmaxl(0, h * h - k));
    LD t = 1e-6 * (fabsl(h) + sqrtl(fabsl(k)) + 1 / sqrtl(D[i]));
    if (h * h - k < 1e-3 * (h * h + fabsl(k))) t *= 1000;
    NEARL(g, geo.vertexMinPrincipalCurvatures[v], h - c, t, "min principal curvature");
    NEARL(g, geo.vertexMaxPrincipalCurvatures[v], h + c, t, "max principal curvature");
    NEARL(g, geo.vertexMinPrincipalCurvature(v), h - c, t, "vertexMinPrincipalCurvature()");
    NEARL(g, geo.vertexMaxPrincipalCurvature(v), h + c, t, "vertexMaxPrincipalCurvature()");
    NEARL(g, norm(V3L(geo.vertexDualMeanCurvatureNormals[v]) * 2 - grad[i]), 0, 1e-8 * lmax * 20, "mean curvature normal vs area gradient");
    NEARL(g, norm(V3L(geo.vertexDualMeanCurvatureNormal(v)) * 2 - grad[i]), 0, 1e-8 * lmax * 20, "vertexDualMeanCurvatureNormal()");
    Vector2 p = geo.vertexPrincipalCurvatureDirections[v];
    NEARL(g, std::abs(LC(p.x, p.y) - pd[i]), 0, 1e-7 * lmax * 20, "principal curvature direction");
  }
  for (Face f : m.faces()) {
    Vector2 p = geo.facePrincipalCurvatureDirections[f];
    NEARL(g, std::abs(LC(p.x, p.y) - pf[f.getIndex()]), 0, 1e-7 * lmax * 20, "face principal curvature direction");
  }
}

static void extrinsicTri(G& g) {
  Geo w = genTriGeo(g);
  checkExtrinsic(g, w, true, true);
}
static void extrinsicGeneral(G& g) {
  Geo w = genGeneralTriGeo(g);
  checkExtrinsic(g, w, true, false);
}
static void extrinsicPoly(G& g) {
  GenOpts o;
  Soup s = genManifold(g, o);
  if (minEdge(s) < 1e-3) g.discard();
  Geo w = makeManifoldGeo(g, s, false);
  checkExtrinsic(g, w, false, true);
}
static void copies(G& g) {
  Geo w = genTriGeo(g);
  auto c = w.vpg->copy();
  REQ(g, &c->mesh == w.mesh.get(), "copy() is on another mesh");
  std::unique_ptr<SurfaceMesh> m2 = w.mesh->copy();
  auto r = w.vpg->reinterpretTo(*m2);
  auto e = elgOf(w);
  auto ec = e->copy();
  auto er = e->reinterpretTo(*m2);
  checkImmediateIntrinsic(g, *c, oracleOf(*w.mesh, w.pos), 1e-8, "copy:");
  VertexData<Vector3> p2 = w.pos.reinterpretTo(*m2);
  TriOracle o2 = oracleOf(*m2, p2);
  checkIntrinsicMetric(g, *r, o2, 1e-8, "reinterpretTo:");
  checkImmediateIntrinsic(g, *er, o2, 1e-8, "lengths reinterpretTo:");
  // independence
  Vector3 was = w.pos[w.mesh->vertex(pickVertex(g, *w.mesh).getIndex())];
  for (Vertex v : w.mesh->vertices()) c->inputVertexPositions[v] += Vector3{1, 2, 3};
  for (Vertex v : m2->vertices()) r->inputVertexPositions[v] *= 3;
  for (Edge ed : w.mesh->edges()) ec->inputEdgeLengths[ed] *= 2;
  for (Edge ed : m2->edges()) er->inputEdgeLengths[ed] *= 2;
  (void)was;
  checkImmediateIntrinsic(g, *w.vpg, oracleOf(*w.mesh, w.pos), 1e-8, "original after editing copies:");
  checkImmediateIntrinsic(g, *e, oracleOf(*w.mesh, w.pos), 1e-8, "original lengths after editing copies:");
  // matrix constructor
  Eigen::MatrixXd M(w.mesh->nVertices(), 3);
  size_t i = 0;
  for (Vertex v : w.mesh->vertices()) {
    for (int k = 0; k < 3; k++) M(i, k) = w.pos[v][k];
    i++;
  }
  VertexPositionGeometry fromM(*w.mesh, M);
  for (Vertex v : w.mesh->vertices()) REQ(g, fromM.inputVertexPositions[v] == w.pos[v], "matrix constructor");
  VertexPositionGeometry zero(*w.mesh);
  for (Vertex v : w.mesh->vertices()) REQ(g, zero.inputVertexPositions[v] == (Vector3{0, 0, 0}), "default positions");
}

// ---------------------------------------------------------------- C08
static void checkOperators(G& g, IntrinsicGeometryInterface& geo, const TriOracle& o, double tol, const std::string& w) {
  SurfaceMesh& m = geo.mesh;
  size_t V = m.nVertices(), E = m.nEdges(), F = m.nFaces();
  auto vi = [&](Vertex v) { return o.vi[v.getIndex()]; };
  auto ei = [&](Edge e) { return o.ei[e.getIndex()]; };
  auto fi = [&](Face f) { return o.fi[f.getIndex()]; };
  geo.requireCotanLaplacian();
  geo.requireVertexLumpedMassMatrix();
  geo.requireVertexGalerkinMassMatrix();
  geo.requireFaceGalerkinMassMatrix();
  geo.requireCrouzeixRaviartLaplacian();
  geo.requireCrouzeixRaviartMassMatrix();
  geo.requireCrouzeixRaviartConnectionLaplacian();
  geo.requireDECOperators();
  Sp L, ML, MG, MF, CR, CRM, CRC, H0, H1, H2, D0, D1;
  for (size_t i = 0; i < V; i++) add(L, i, i, 0);
  for (Face f : m.faces()) {
    Halfedge h[3];
    h[0] = f.halfedge();
    h[1] = h[0].next();
    h[2] = h[1].next();
    LD l[3];
    for (int i = 0; i < 3; i++) l[i] = o.L(h[i].edge());
    // planar triangle p0=0, p1=(l0,0), p2
    LD A = o.A(f);
    LC p[3];
    p[0] = 0;
    p[1] = l[0];
    LD x = (l[0] * l[0] + l[2] * l[2] - l[1] * l[1]) / (2 * l[0]);
    p[2] = LC(x, 2 * A / l[0]);
    LC grad[3]; // gradient of the hat function at p[i]
    for (int i = 0; i < 3; i++) {
      LC e = p[(i + 2) % 3] - p[(i + 1) % 3];
      grad[i] = LC(0, 1) * e / (2 * A);
    }
    add(MF, fi(f), fi(f), A);
    add(H2, fi(f), fi(f), 1 / A);
    for (int i = 0; i < 3; i++) {
      size_t a = vi(h[i].vertex());
      add(ML, a, a, A / 3);
      add(CRM, ei(h[i].edge()), ei(h[i].edge()), A / 3);
      add(D1, fi(f), ei(h[i].edge()), h[i].orientation() ? 1 : -1);
      for (int j = 0; j < 3; j++) {
        size_t b = vi(h[j].vertex());
        LD s = A * (grad[i].real() * grad[j].real() + grad[i].imag() * grad[j].imag());
        add(L, a, b, s);
        add(MG, a, b, i == j ? A / 6 : A / 12);
        // edge h[(i+1)%3] is opposite to vertex i; Crouzeix-Raviart function = 1 - 2 hat_i
        Halfedge hi = h[(i + 1) % 3], hj = h[(j + 1) % 3];
        add(CR, ei(hi.edge()), ei(hj.edge()), 4 * s);
        LC di = p[(i + 2) % 3] - p[(i + 1) % 3], dj = p[(j + 2) % 3] - p[(j + 1) % 3];
        di /= std::abs(di) * (hi.orientation() ? 1 : -1);
        dj /= std::abs(dj) * (hj.orientation() ? 1 : -1);
        add(CRC, ei(hi.edge()), ei(hj.edge()), 4 * s * std::conj(di) * dj);
      }
    }
  }
  for (Edge e : m.edges()) {
    LD c = 0;
    for (Halfedge h : e.adjacentInteriorHalfedges()) c += o.cot[h.getIndex()] / 2;
    add(H1, ei(e), ei(e), c);
    Halfedge h = e.halfedge();
    add(D0, ei(e), vi(h.tipVertex()), 1);
    add(D0, ei(e), vi(h.tailVertex()), -1);
  }
  cmpSparse(g, geo.cotanLaplacian, L, V, V, tol * 100, w + "cotanLaplacian");
  cmpSparse(g, geo.vertexLumpedMassMatrix, ML, V, V, tol, w + "vertexLumpedMassMatrix");
  cmpSparse(g, geo.vertexGalerkinMassMatrix, MG, V, V, tol, w + "vertexGalerkinMassMatrix");
  cmpSparse(g, geo.faceGalerkinMassMatrix, MF, F, F, tol, w + "faceGalerkinMassMatrix");
  cmpSparse(g, geo.crouzeixRaviartLaplacian, CR, E, E, tol * 100, w + "crouzeixRaviartLaplacian");
  cmpSparse(g, geo.crouzeixRaviartMassMatrix, CRM, E, E, tol, w + "crouzeixRaviartMassMatrix");
  cmpSparse(g, geo.crouzeixRaviartConnectionLaplacian, CRC, E, E, tol * 100, w + "crouzeixRaviartConnectionLaplacian");
  cmpSparse(g, geo.hodge0, ML, V, V, tol, w + "hodge0");
  cmpSparse(g, geo.hodge1, H1, E, E, tol * 100, w + "hodge1");
  cmpSparse(g, geo.hodge2, H2, F, F, tol * 100, w + "hodge2");
  cmpSparse(g, geo.d0, D0, E, V, 1e-14, w + "d0");
  cmpSparse(g, geo.d1, D1, F, E, 1e-14, w + "d1");
  for (auto& pr : {std::make_pair(&geo.hodge0, &geo.hodge0Inverse), std::make_pair(&geo.hodge1, &geo.hodge1Inverse),
                   std::make_pair(&geo.hodge2, &geo.hodge2Inverse)}) {
    REQ(g, pr.first->rows() == pr.second->rows() && pr.first->cols() == pr.second->cols(), w << "size of an inverse Hodge star");
    for (int i = 0; i < pr.first->rows(); i++) {
      double a = pr.first->coeff(i, i), b = pr.second->coeff(i, i);
      if (std::fabs(a) > 1e-250) NEARL(g, (LD)a * b, 1, 1e-10, w << "inverse Hodge star");
    }
  }
  // relations that hold whatever the definition of the entries
  Eigen::SparseMatrix<double> dd = geo.d1 * geo.d0;
  for (int k = 0; k < dd.outerSize(); k++)
    for (Eigen::SparseMatrix<double>::InnerIterator it(dd, k); it; ++it) REQ(g, it.value() == 0., w << "d1*d0 is not zero");
  Eigen::SparseMatrix<double> L2 = geo.d0.transpose() * geo.hodge1 * geo.d0;
  REQ(g, (L2 - geo.cotanLaplacian).norm() <= 1e-9 * (1 + geo.cotanLaplacian.norm()), w << "d0' hodge1 d0 is not the Laplacian");
  Eigen::VectorXd x(V);
  for (size_t i = 0; i < V; i++) x(i) = g.jitter(1);
  double en = x.dot(geo.cotanLaplacian * x);
  REQ(g, en >= -1e-9 * (1 + geo.cotanLaplacian.norm()), w << "the Laplacian is indefinite");
  Eigen::VectorXd ones = Eigen::VectorXd::Ones(V);
  NEARL(g, (geo.cotanLaplacian * ones).norm(), 0, 1e-10 * (1 + geo.cotanLaplacian.norm()) * std::sqrt((double)V), w << "row sums");
  NEARL(g, ones.dot(geo.vertexGalerkinMassMatrix * ones), o.totalArea(), tol * o.totalArea() * 10, w << "total mass");
}

static void checkConnection(G& g, IntrinsicGeometryInterface& geo, const TriOracle& o, double tol, const std::string& w) {
  SurfaceMesh& m = geo.mesh;
  size_t V = m.nVertices(), F = m.nFaces();
  geo.requireVertexConnectionLaplacian();
  geo.requireFaceConnectionLaplacian();
  Sp VC, FC;
  for (Edge e : m.edges()) {
    LD c = 0;
    for (Halfedge h : e.adjacentInteriorHalfedges()) c += o.cot[h.getIndex()] / 2;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
      size_t i = o.vi[h.tailVertex().getIndex()], j = o.vi[h.tipVertex().getIndex()];
      add(VC, i, i, c);
      add(VC, i, j, -c * o.along(h.twin()));
    }
    if (!e.isBoundary())
      for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
        size_t i = o.fi[h.face().getIndex()], j = o.fi[h.twin().face().getIndex()];
        add(FC, i, i, 1);
        add(FC, i, j, -o.across(h.twin()));
      }
  }
  cmpSparse(g, geo.vertexConnectionLaplacian, VC, V, V, tol * 100, w + "vertexConnectionLaplacian");
  cmpSparse(g, geo.faceConnectionLaplacian, FC, F, F, tol * 100, w + "faceConnectionLaplacian");
}

static void operatorsManifold(G& g) {
  Geo w = genTriGeo(g);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  if (g.coin()) {
    checkOperators(g, *w.vpg, o, 1e-9, "positions: ");
    checkConnection(g, *w.vpg, o, 1e-9, "positions: ");
  } else {
    auto e = elgOf(w);
    checkOperators(g, *e, o, 1e-8, "lengths: ");
    checkConnection(g, *e, o, 1e-8, "lengths: ");
  }
}
static void operatorsGeneral(G& g) {
  Geo w = genGeneralTriGeo(g);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  if (g.coin()) checkOperators(g, *w.vpg, o, 1e-8, "positions: ");
  else checkOperators(g, *elgOf(w), o, 1e-6, "lengths: ");
}
static void operatorsDelta(G& g) {
  Delta d = genDelta(g);
  EdgeLengthGeometry geo(*d.mesh, d.len);
  TriOracle o = oracleOf(*d.mesh, d.len);
  checkOperators(g, geo, o, 1e-9, "delta: ");
  checkConnection(g, geo, o, 1e-9, "delta: ");
}
// a flat patch: linear functions are harmonic, constant vector fields are parallel
static void operatorsFlat(G& g) {
  GenOpts o;
  o.disk = true;
  o.multi = false;
  o.bend = 0;
  Soup s = genTri(g, o, .12);
  for (auto& p : s.pos) p.z = 0;
  if (minAngle(s) < .12) g.discard();
  for (auto& p : s.polys) { // all triangles the same way up
    V3L a = s.pos[p[0]], b = s.pos[p[1]], c = s.pos[p[2]];
    if (cross(b - a, c - a).z * cross(V3L(s.pos[s.polys[0][1]]) - V3L(s.pos[s.polys[0][0]]), V3L(s.pos[s.polys[0][2]]) - V3L(s.pos[s.polys[0][0]])).z <= 0) g.discard();
  }
  Soup flat = s;
  Geo w = makeManifoldGeo(g, s, false);
  ManifoldSurfaceMesh& m = *w.man;
  VertexPositionGeometry& geo = *w.vpg;
  geo.requireCotanLaplacian();
  geo.requireVertexGaussianCurvatures();
  geo.requireCrouzeixRaviartLaplacian();
  geo.requireCrouzeixRaviartConnectionLaplacian();
  geo.requireFaceConnectionLaplacian();
  geo.requireVertexTangentBasis();
  geo.requireFaceTangentBasis();
  geo.requireHalfedgeVectorsInVertex();
  geo.requireEdgeDihedralAngles();
  double a = g.jitter(1), b = g.jitter(1), c = g.jitter(1), sc = w.scale;
  auto lin = [&](Vector3 p) { return (a * p.x + b * p.y + c * p.z) / sc; };
  Eigen::VectorXd x(m.nVertices());
  for (Vertex v : m.vertices()) x(v.getIndex()) = lin(w.pos[v]);
  Eigen::VectorXd y = geo.cotanLaplacian * x;
  double S = geo.cotanLaplacian.norm() * (x.norm() + 1);
  for (Vertex v : m.vertices()) {
    if (v.isBoundary()) continue;
    NEARL(g, y(v.getIndex()), 0, 1e-9 * S, "linear function on a flat patch is not harmonic");
    NEARL(g, geo.vertexGaussianCurvatures[v], 0, 1e-9, "curvature of a flat patch");
    for (Halfedge h : v.outgoingHalfedges()) { // intrinsic coordinates in the tangent basis give the true vectors
      Vector2 z = geo.halfedgeVectorsInVertex[h];
      Vector3 r = geo.vertexTangentBasis[v][0] * z.x + geo.vertexTangentBasis[v][1] * z.y;
      NEARL(g, norm(r - geo.halfedgeVector(h)), 0, 1e-8 * sc * 10, "vertex tangent basis on a flat patch");
    }
  }
  Eigen::VectorXd xe(m.nEdges());
  for (Edge e : m.edges()) xe(e.getIndex()) = lin((w.pos[e.firstVertex()] + w.pos[e.secondVertex()]) / 2);
  Eigen::VectorXd ye = geo.crouzeixRaviartLaplacian * xe;
  double SE = geo.crouzeixRaviartLaplacian.norm() * (xe.norm() + 1);
  // constant field
  Vector3 F{g.jitter(1), g.jitter(1), g.jitter(1)};
  Vector3 N = geo.faceNormal(m.face(0));
  F = F - N * dot(F, N);
  Eigen::VectorXcd fe(m.nEdges()), ff(m.nFaces());
  for (Edge e : m.edges()) {
    Vector3 d = unit(geo.halfedgeVector(e.halfedge()));
    fe(e.getIndex()) = std::complex<double>(dot(F, d), dot(F, cross(N, d)));
    if (!e.isBoundary()) NEARL(g, ye(e.getIndex()), 0, 1e-9 * SE, "linear function, Crouzeix-Raviart");
    NEARL(g, geo.edgeDihedralAngles[e], 0, 1e-7, "dihedral angle in a flat patch");
  }
  for (Face f : m.faces()) ff(f.getIndex()) = std::complex<double>(dot(F, geo.faceTangentBasis[f][0]), dot(F, geo.faceTangentBasis[f][1]));
  Eigen::VectorXcd re = geo.crouzeixRaviartConnectionLaplacian * fe, rf = geo.faceConnectionLaplacian * ff;
  for (Edge e : m.edges())
    if (!e.isBoundary()) NEARL(g, std::abs(re(e.getIndex())), 0, 1e-8 * (1 + SE), "constant field, edge connection");
  NEARL(g, rf.norm(), 0, 1e-5 * (1 + geo.faceConnectionLaplacian.norm()), "constant field, face connection");
}

// ---------------------------------------------------------------- C10
static void checkTangent(G& g, IntrinsicGeometryInterface& geo, const TriOracle& o, double tol, const std::string& w) {
  SurfaceMesh& m = geo.mesh;
  geo.requireHalfedgeVectorsInFace();
  geo.requireHalfedgeVectorsInVertex();
  geo.requireTransportVectorsAcrossHalfedge();
  geo.requireTransportVectorsAlongHalfedge();
  geo.requireFaceGaussianCurvatures();
  auto C = [](Vector2 v) { return LC(v.x, v.y); };
  for (Halfedge h : m.halfedges()) {
    LD l = o.L(h.edge());
    if (h.isInterior()) NEARL(g, std::abs(C(geo.halfedgeVectorsInFace[h]) - o.vecInFace(h)), 0, 1e-6 * l, w << " halfedge vector in face");
    else REQ(g, !geo.halfedgeVectorsInFace[h].isFinite(), w << " halfedge vector of an exterior halfedge");
    NEARL(g, std::abs(C(geo.halfedgeVectorsInVertex[h]) - o.vecInVertex(h)), 0, 30 * tol * l, w << " halfedge vector in vertex");
    NEARL(g, std::abs(C(geo.transportVectorsAlongHalfedge[h]) - o.along(h)), 0, 100 * tol, w << " transport along halfedge");
    if (h.edge().isBoundary()) REQ(g, !geo.transportVectorsAcrossHalfedge[h].isFinite(), w << " transport across a boundary edge");
    else NEARL(g, std::abs(C(geo.transportVectorsAcrossHalfedge[h]) - o.across(h)), 0, 1e-5, w << " transport across halfedge");
  }
  // first halfedges lie on the x axis
  for (Vertex v : m.vertices()) REQ(g, geo.halfedgeVectorsInVertex[v.halfedge()].y == 0. && geo.halfedgeVectorsInVertex[v.halfedge()].x > 0, w << " vertex.halfedge() is not the x axis");
  for (Face f : m.faces()) {
    REQ(g, geo.halfedgeVectorsInFace[f.halfedge()].y == 0. && geo.halfedgeVectorsInFace[f.halfedge()].x > 0, w << " face.halfedge() is not the x axis");
    // holonomy around a face
    Vector2 r{1, 0};
    for (Halfedge h : f.adjacentHalfedges()) r = geo.transportVectorsAlongHalfedge[h] * r;
    LC want = std::polar((LD)1, (LD)geo.faceGaussianCurvatures[f]);
    NEARL(g, std::abs(C(r) - want), 0, 1000 * tol, w << " holonomy around a face");
  }
  // holonomy around an interior vertex
  for (Vertex v : m.vertices()) {
    if (v.isBoundary()) continue;
    LC r = 1;
    Halfedge h = v.halfedge();
    do { // counterclockwise
      Halfedge in = h.next().next();
      r *= C(geo.transportVectorsAcrossHalfedge[in]);
      h = in.twin();
    } while (h != v.halfedge());
    LC want = std::polar((LD)1, 2 * LPI - o.angSum[v.getIndex()]);
    NEARL(g, std::abs(r - want), 0, 1e-4, w << " holonomy around a vertex");
  }
}
static void tangentManifold(G& g) {
  Geo w = genTriGeo(g);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  checkTangent(g, *w.vpg, o, 1e-8, "positions:");
  checkTangent(g, *elgOf(w), o, 1e-8, "lengths:");
  VertexPositionGeometry& geo = *w.vpg;
  geo.requireFaceTangentBasis();
  geo.requireVertexTangentBasis();
  geo.requireFaceNormals();
  geo.requireVertexNormals();
  auto frame = [&](std::array<Vector3, 2> B, Vector3 N, const char* what) {
    NEARL(g, norm(B[0]), 1, 1e-9, what << " normal " << dbl(N));
    NEARL(g, norm(B[1]), 1, 1e-9, what);
    NEARL(g, dot(B[0], B[1]), 0, 1e-9, what);
    NEARL(g, norm(cross(B[0], B[1]) - N), 0, 1e-8, what);
  };
  for (Face f : w.mesh->faces()) {
    frame(geo.faceTangentBasis[f], geo.faceNormals[f], "face tangent basis");
    for (Halfedge h : f.adjacentHalfedges()) {
      Vector2 z = geo.halfedgeVectorsInFace[h];
      Vector3 r = geo.faceTangentBasis[f][0] * z.x + geo.faceTangentBasis[f][1] * z.y;
      NEARL(g, norm(r - geo.halfedgeVector(h)), 0, 1e-6 * o.L(h.edge()), "face tangent basis does not map to the halfedge");
    }
  }
  for (Vertex v : w.mesh->vertices()) {
    // definition: average over the edges of the projected edge vector, rotated back by its intrinsic angle
    LD c = 0;
    V3L N = geo.vertexNormals[v], sum;
    for (Halfedge h : v.outgoingHalfedges()) {
      V3L e = V3L(w.pos[h.tipVertex()]) - V3L(w.pos[v]);
      e = e - N * dot(e, N);
      LD a = -o.phi[h.getIndex()];
      sum = sum + e * cosl(a) + cross(N, e) * sinl(a);
      c += o.L(h.edge());
    }
    if (!(norm(sum) >= .02 * c)) continue; // no usable average
    frame(geo.vertexTangentBasis[v], geo.vertexNormals[v], "vertex tangent basis");
    NEARL(g, norm(V3L(geo.vertexTangentBasis[v][0]) - unit(sum)), 0, 1e-5, "x axis of the vertex tangent basis");
  }
}
static void tangentDelta(G& g) {
  Delta d = genDelta(g);
  EdgeLengthGeometry geo(*d.mesh, d.len);
  checkTangent(g, geo, oracleOf(*d.mesh, d.len), 1e-9, "delta:");
}
static void tangentGeneral(G& g) { // any basis, but an orthonormal right-handed one
  Geo w = genGeneralTriGeo(g);
  VertexPositionGeometry& geo = *w.vpg;
  geo.requireFaceTangentBasis();
  geo.requireFaceNormals();
  geo.requireHalfedgeVectorsInFace();
  TriOracle o = oracleOf(*w.mesh, w.pos);
  for (Face f : w.mesh->faces()) {
    auto B = geo.faceTangentBasis[f];
    NEARL(g, norm(B[0]), 1, 1e-9, "face tangent basis");
    NEARL(g, norm(B[1]), 1, 1e-9, "face tangent basis");
    NEARL(g, norm(cross(B[0], B[1]) - geo.faceNormals[f]), 0, 1e-8, "face tangent basis");
    for (Halfedge h : f.adjacentHalfedges()) {
      Vector2 z = geo.halfedgeVectorsInFace[h];
      NEARL(g, std::abs(LC(z.x, z.y) - o.vecInFace(h)), 0, 1e-6 * o.L(h.edge()), "halfedge vector in face");
    }
  }
}

// ---------------------------------------------------------------- C09
struct Quantity {
  std::string name;
  bool poly, general, lengths; // valid on polygon meshes / general meshes / edge length geometry
  std::function<void(IntrinsicGeometryInterface&)> require, unrequire;
  std::function<std::vector<double>(IntrinsicGeometryInterface&)> dump;
  std::function<bool(IntrinsicGeometryInterface&)> cleared;
};

static void put(std::vector<double>& o, double v) { o.push_back(v); }
static void put(std::vector<double>& o, size_t v) { o.push_back((double)v); }
static void put(std::vector<double>& o, Vector2 v) { o.insert(o.end(), {v.x, v.y}); }
static void put(std::vector<double>& o, Vector3 v) { o.insert(o.end(), {v.x, v.y, v.z}); }
static void put(std::vector<double>& o, const std::array<Vector3, 2>& v) {
  put(o, v[0]);
  put(o, v[1]);
}
template <typename E, typename T>
static void dumpTo(std::vector<double>& o, SurfaceMesh& m, MeshData<E, T>& d) {
  for (E e : iterateElements<E>(&m)) put(o, d[e]);
}
static void dumpTo(std::vector<double>& o, SurfaceMesh&, double& d) { o.push_back(d); }
template <typename T>
static void dumpTo(std::vector<double>& o, SurfaceMesh&, Eigen::SparseMatrix<T>& d) {
  o.push_back(d.rows());
  o.push_back(d.cols());
  for (int k = 0; k < d.outerSize(); k++)
    for (typename Eigen::SparseMatrix<T>::InnerIterator it(d, k); it; ++it) {
      std::complex<double> z = it.value();
      o.insert(o.end(), {(double)it.row(), (double)it.col(), z.real(), z.imag()});
    }
}
template <typename E, typename T>
static bool isCleared(MeshData<E, T>& d) { return d.size() == 0; }
static bool isCleared(double&) { return true; }
template <typename T>
static bool isCleared(Eigen::SparseMatrix<T>& d) { return d.rows() == 0 && d.nonZeros() == 0; }

static std::vector<Quantity>& table() {
  static std::vector<Quantity> t;
  if (!t.empty()) return t;
#define Q0(TYPE, Name, member, poly, general, lengths)                                                                 \
  t.push_back({#Name, poly, general, lengths, [](IntrinsicGeometryInterface& i) { dynamic_cast<TYPE&>(i).require##Name(); },        \
               [](IntrinsicGeometryInterface& i) { dynamic_cast<TYPE&>(i).unrequire##Name(); },                             \
               [](IntrinsicGeometryInterface& i) {                                                                          \
                 std::vector<double> o;                                                                                \
                 dumpTo(o, i.mesh, dynamic_cast<TYPE&>(i).member);                                                      \
                 return o;                                                                                             \
               },                                                                                                      \
               [](IntrinsicGeometryInterface& i) { return isCleared(dynamic_cast<TYPE&>(i).member); }});
#define QI(Name, member, general) Q0(IntrinsicGeometryInterface, Name, member, false, general, true)
#define QP(Name, member, general) Q0(IntrinsicGeometryInterface, Name, member, true, general, true)
#define QE(Name, member, poly, general) Q0(VertexPositionGeometry, Name, member, poly, general, false)
  QP(VertexIndices, vertexIndices, true)
  QP(InteriorVertexIndices, interiorVertexIndices, true)
  QP(EdgeIndices, edgeIndices, true)
  QP(HalfedgeIndices, halfedgeIndices, true)
  QP(CornerIndices, cornerIndices, true)
  QP(FaceIndices, faceIndices, true)
  QP(BoundaryLoopIndices, boundaryLoopIndices, false)
  QP(EdgeLengths, edgeLengths, true)
  QI(FaceAreas, faceAreas, true)
  QI(VertexDualAreas, vertexDualAreas, true)
  QI(CornerAngles, cornerAngles, true)
  QI(VertexAngleSums, vertexAngleSums, true)
  QI(CornerScaledAngles, cornerScaledAngles, true)
  QI(VertexGaussianCurvatures, vertexGaussianCurvatures, true)
  QI(FaceGaussianCurvatures, faceGaussianCurvatures, true)
  QI(HalfedgeCotanWeights, halfedgeCotanWeights, true)
  QI(EdgeCotanWeights, edgeCotanWeights, true)
  QI(ShapeLengthScale, shapeLengthScale, true)
  QP(MeshLengthScale, meshLengthScale, true)
  QI(HalfedgeVectorsInFace, halfedgeVectorsInFace, true)
  QI(TransportVectorsAcrossHalfedge, transportVectorsAcrossHalfedge, false)
  QI(HalfedgeVectorsInVertex, halfedgeVectorsInVertex, false)
  QI(TransportVectorsAlongHalfedge, transportVectorsAlongHalfedge, false)
  QI(CotanLaplacian, cotanLaplacian, true)
  QI(VertexLumpedMassMatrix, vertexLumpedMassMatrix, true)
  QI(VertexGalerkinMassMatrix, vertexGalerkinMassMatrix, true)
  QI(VertexConnectionLaplacian, vertexConnectionLaplacian, false)
  QI(FaceGalerkinMassMatrix, faceGalerkinMassMatrix, true)
  QI(FaceConnectionLaplacian, faceConnectionLaplacian, false)
  QI(CrouzeixRaviartLaplacian, crouzeixRaviartLaplacian, true)
  QI(CrouzeixRaviartMassMatrix, crouzeixRaviartMassMatrix, true)
  QI(CrouzeixRaviartConnectionLaplacian, crouzeixRaviartConnectionLaplacian, true)
  QE(EdgeDihedralAngles, edgeDihedralAngles, true, true)
  QE(VertexMeanCurvatures, vertexMeanCurvatures, false, false)
  QE(VertexMinPrincipalCurvatures, vertexMinPrincipalCurvatures, false, false)
  QE(VertexMaxPrincipalCurvatures, vertexMaxPrincipalCurvatures, false, false)
  QE(VertexPrincipalCurvatureDirections, vertexPrincipalCurvatureDirections, false, false)
  QE(FacePrincipalCurvatureDirections, facePrincipalCurvatureDirections, false, false)
  QE(FaceNormals, faceNormals, true, true)
  QE(VertexNormals, vertexNormals, true, true)
  QE(FaceTangentBasis, faceTangentBasis, true, true)
  QE(VertexTangentBasis, vertexTangentBasis, true, true)
  QE(VertexDualMeanCurvatureNormals, vertexDualMeanCurvatureNormals, false, true)
  QE(SimplePolygonLaplacian, simplePolygonLaplacian, true, true)
  QE(SimplePolygonVertexGalerkinMassMatrix, simplePolygonVertexGalerkinMassMatrix, true, true)
  QE(SimplePolygonVertexLumpedMassMatrix, simplePolygonVertexLumpedMassMatrix, true, true)
  QE(PolygonLaplacian, polygonLaplacian, true, true)
  QE(PolygonGradientMatrix, polygonGradientMatrix, true, true)
  QE(PolygonDivergenceMatrix, polygonDivergenceMatrix, true, true)
  QE(PolygonVertexLumpedMassMatrix, polygonVertexLumpedMassMatrix, true, true)
  QE(PolygonVertexConnectionLaplacian, polygonVertexConnectionLaplacian, true, true)
  // grouped operators: several members behind one name
#define QG(TYPE, Name, poly, lengths, LIST, CLR)                                                                       \
  t.push_back({#Name, poly, true, lengths, [](IntrinsicGeometryInterface& i) { dynamic_cast<TYPE&>(i).require##Name(); },           \
               [](IntrinsicGeometryInterface& i) { dynamic_cast<TYPE&>(i).unrequire##Name(); },                             \
               [](IntrinsicGeometryInterface& i) {                                                                          \
                 TYPE& q = dynamic_cast<TYPE&>(i);                                                                      \
                 std::vector<double> o;                                                                                \
                 for (auto* M : std::vector<Eigen::SparseMatrix<double>*> LIST) dumpTo(o, i.mesh, *M);                 \
                 return o;                                                                                             \
               },                                                                                                      \
               [](IntrinsicGeometryInterface& i) {                                                                          \
                 TYPE& q = dynamic_cast<TYPE&>(i);                                                                      \
                 bool c = true;                                                                                        \
                 for (auto* M : std::vector<Eigen::SparseMatrix<double>*> LIST) c = c && isCleared(*M);                \
                 return c;                                                                                             \
               }});
#define ARR(...) {__VA_ARGS__}
  QG(IntrinsicGeometryInterface, DECOperators, false, true, ARR(&q.hodge0, &q.hodge0Inverse, &q.hodge1, &q.hodge1Inverse, &q.hodge2, &q.hodge2Inverse, &q.d0, &q.d1), )
  QG(VertexPositionGeometry, PolygonDECOperators, true, false, ARR(&q.polygonHodge0, &q.polygonHodge0Inverse, &q.polygonHodge1, &q.polygonHodge2, &q.polygonHodge2Inverse, &q.polygonD0, &q.polygonD1), )
  return t;
}

static bool sameBits(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) {
      // the definition may be evaluated in another order; only a real difference counts
      if (!(std::fabs(a[i] - b[i]) <= 1e-9 * (std::fabs(a[i]) + std::fabs(b[i])) + 1e-10)) return false;
    }
  return true;
}

// kind: 0 triangle manifold + positions, 1 same + lengths, 2 polygon manifold, 3 general triangles
static void caches(G& g, int kind) {
  Geo w;
  if (kind == 2) {
    GenOpts o;
    Soup s = genManifold(g, o);
    w = makeManifoldGeo(g, s, false, .1, 1);
  } else if (kind == 3)
    w = genGeneralTriGeo(g, 10, .08, 1);
  else {
    GenOpts o;
    o.maxFaces = 30;
    o.size = 3;
    w = genTriGeo(g, o, true, .12, 1);
  }
  std::vector<size_t> pool;
  for (size_t i = 0; i < table().size(); i++) {
    auto& q = table()[i];
    if (kind == 1 && !q.lengths) continue;
    if (kind == 2 && !q.poly) continue;
    if (kind == 3 && !q.general) continue;
    pool.push_back(i);
  }
  std::unique_ptr<EdgeLengthGeometry> elg;
  if (kind == 1) elg = elgOf(w);
  IntrinsicGeometryInterface& geo = kind == 1 ? static_cast<IntrinsicGeometryInterface&>(*elg) : *w.vpg;
  SurfaceMesh& m = *w.mesh;
  std::map<size_t, int> cnt;
  bool stale = false; // geometry changed since the last refresh
  std::map<size_t, std::vector<double>> freshCache;
  auto fresh = [&](size_t q) -> std::vector<double>& {
    auto it = freshCache.find(q);
    if (it != freshCache.end()) return it->second;
    std::unique_ptr<IntrinsicGeometryInterface> n;
    if (kind == 1) n.reset(new EdgeLengthGeometry(m, elg->inputEdgeLengths));
    else n.reset(new VertexPositionGeometry(m, w.vpg->inputVertexPositions));
    table()[q].require(*n);
    return freshCache[q] = table()[q].dump(*n);
  };
  auto verify = [&](const std::string& when) {
    if (stale) return;
    for (auto& c : cnt)
      if (c.second > 0)
        REQ(g, sameBits(table()[c.first].dump(geo), fresh(c.first)), "quantity " << table()[c.first].name << " differs from a fresh computation after " << when);
  };
  int steps = g.range(2, 16);
  for (int i = 0; i < steps; i++) {
    switch (g.weighted({6, 3, 3, 3, 2, 2})) {
    case 0: {
      if (stale) break; // require() on outdated caches is unspecified
      size_t q = g.pick(pool);
      table()[q].require(geo);
      cnt[q]++;
      g.note("require ", table()[q].name);
      verify("require " + table()[q].name);
      break;
    }
    case 1: {
      std::vector<size_t> have;
      for (auto& c : cnt)
        if (c.second > 0) have.push_back(c.first);
      if (have.empty()) break;
      size_t q = g.pick(have);
      table()[q].unrequire(geo);
      cnt[q]--;
      g.note("unrequire ", table()[q].name);
      verify("unrequire " + table()[q].name);
      break;
    }
    case 2: {
      geo.purgeQuantities();
      g.note("purge");
      for (size_t q : pool)
        if (cnt[q] == 0 && !(kind == 1 && table()[q].name == "EdgeLengths")) REQ(g, table()[q].cleared(geo), "purge did not clear " << table()[q].name);
      verify("purge");
      break;
    }
    case 3: {
      g.note("move");
      if (kind == 1) {
        for (Edge e : m.edges()) elg->inputEdgeLengths[e] *= g.real(1., 1.02);
      } else {
        VertexData<Vector3>& p = w.vpg->inputVertexPositions;
        Vertex v = pickVertex(g, m);
        p[v] += Vector3{g.jitter(.05), g.jitter(.05), g.jitter(.05)} * w.scale;
        Vector3 ax = randDir(g);
        double an = g.real(0, 3);
        for (Vertex u : m.vertices()) p[u] = p[u].rotateAround(ax, an);
      }
      stale = true;
      freshCache.clear();
      break;
    }
    case 4: {
      if (!w.man || kind == 1) break;
      g.note("edit");
      VertexData<Vector3>& p = w.vpg->inputVertexPositions;
      if (kind == 0) {
        Edge e = pickEdge(g, m);
        Vector3 mid = (p[e.firstVertex()] + p[e.secondVertex()]) / 2;
        if (g.coin()) {
          Vertex v = w.man->splitEdgeTriangular(e).vertex();
          p[v] = mid;
        } else
          w.man->flip(e);
      } else {
        Face f = pickFace(g, m);
        Vector3 c{0, 0, 0};
        for (Vertex v : f.adjacentVertices()) c += p[v] / f.degree();
        p[w.man->insertVertex(f)] = c;
      }
      if (g.coin()) {
        m.compress();
        g.note("compress");
      }
      stale = true;
      freshCache.clear();
      break;
    }
    default: {
      geo.refreshQuantities();
      stale = false;
      g.note("refresh");
      verify("refresh");
    }
    }
  }
  if (stale) {
    geo.refreshQuantities();
    stale = false;
    verify("final refresh");
  }
  // unbalanced unrequire is reported
  size_t q = g.pick(pool);
  if (cnt[q] == 0 && !(kind == 1 && table()[q].name == "EdgeLengths")) REQ_THROWS(g, table()[q].unrequire(geo), "unrequire without require");
  if (cnt[q] == 0 && !(kind == 1 && table()[q].name == "EdgeLengths")) { // ... and does not upset a later require
    table()[q].require(geo);
    cnt[q]++;
    geo.purgeQuantities();
    verify("require after an unbalanced unrequire, and purge");
  }
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  std::string surf = "triangle surfaces (disks, cylinders, tori, voxel surfaces, platonic solids, fans; random flips/splits/holes; up to ~240 "
                     "faces; smooth bending, noise, random similarity with scale 1e-5..1e5, index gaps from edits), general nonmanifold soups, "
                     "Delta-complexes with random lengths; ";
  specs.push_back({"C07", surf + "all angles >= 0.04-0.12 rad; non-trivial: more than 4 (manifold) or 2 (other) faces",
                   {{"manifold", metricManifold, 4800, 50000},
                    {"general", metricGeneral, 6000, 60000},
                    {"delta", metricDelta, 8000, 80000},
                    {"extrinsic", extrinsicTri, 4800, 50000},
                    {"extrinsic-general", extrinsicGeneral, 6000, 60000},
                    {"extrinsic-polygons", extrinsicPoly, 4800, 50000},
                    {"copies", copies, 2000, 16000}},
                   {"triangles are not slivers; tolerances 1e-9..1e-7 relative to the shape"}});
  specs.push_back({"C08", surf + "every matrix is compared entrywise with one assembled from per-triangle finite-element matrices in long double; non-trivial as in C07",
                   {{"manifold", operatorsManifold, 4800, 50000},
                    {"general", operatorsGeneral, 6000, 60000},
                    {"delta", operatorsDelta, 6000, 60000},
                    {"flat", operatorsFlat, 4000, 40000}},
                   {"triangles are not slivers"}});
  specs.push_back({"C09", surf + "histories of up to 16 require/unrequire/purge/move/edit/refresh steps over all quantities; each required quantity is compared with a newly built geometry after every step; non-trivial as in C07",
                   {{"positions", [](G& g) { caches(g, 0); }, 4800, 50000},
                    {"lengths", [](G& g) { caches(g, 1); }, 3200, 30000},
                    {"polygons", [](G& g) { caches(g, 2); }, 3200, 30000},
                    {"general", [](G& g) { caches(g, 3); }, 3200, 30000}},
                   {"values of required quantities between a change of the input and refreshQuantities() are unspecified"}});
  specs.push_back({"C10", surf + "frames, halfedge vectors and transport compared with polar coordinates computed in long double; holonomy around faces and vertices; non-trivial as in C07",
                   {{"manifold", tangentManifold, 4800, 50000},
                    {"delta", tangentDelta, 8000, 80000},
                    {"general", tangentGeneral, 6000, 60000}},
                   {"triangles are not slivers; vertex frames only where the defining average is not degenerate"}});
  return pbt::run(argc, argv, specs);
}
