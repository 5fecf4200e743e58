// C28: direction fields, their indices, and stripe patterns.
#include "geomutil.h"
#include "mutate.h"
#include "pbt_main.h"
#include "pointutil.h"

#include "geometrycentral/surface/direction_fields.h"
#include "geometrycentral/surface/stripe_patterns.h"

using namespace mg;
typedef std::complex<double> C;
typedef Eigen::MatrixXcd MC;
typedef Eigen::VectorXcd VC;
static const double TAU = 2 * M_PI;

static C toC(LC c) { return C((double)c.real(), (double)c.imag()); }
static C ipow(C c, int n) {
  C r = 1;
  for (int i = 0; i < n; i++) r *= c;
  return r;
}
static bool oneComponent(SurfaceMesh& m) {
  std::set<size_t> seen;
  std::vector<Vertex> st{*m.vertices().begin()};
  seen.insert(st[0].getIndex());
  while (!st.empty()) {
    Vertex v = st.back();
    st.pop_back();
    for (Edge e : v.adjacentEdges())
      for (Vertex u : {e.firstVertex(), e.secondVertex()})
        if (seen.insert(u.getIndex()).second) st.push_back(u);
  }
  return seen.size() == m.nVertices();
}
static Geo genMesh(G& g, int maxFaces, double minAng = .2) {
  GenOpts o;
  o.maxFaces = maxFaces;
  Geo w = genTriGeo(g, o, true, minAng, 0);
  if (!oneComponent(*w.mesh)) g.discard();
  return w;
}
// the geometry, sometimes only by its lengths
struct Own {
  std::unique_ptr<EdgeLengthGeometry> len;
  IntrinsicGeometryInterface& of(G& g, Geo& w) {
    if (!g.chance(.3)) return *w.vpg;
    EdgeData<double> L(*w.mesh);
    for (Edge e : w.mesh->edges()) L[e] = norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]);
    len.reset(new EdgeLengthGeometry(*w.mesh, L));
    g.label("edge lengths");
    return *len;
  }
};

// connection Laplacians of n-fields, with the documented shift
static MC vertexOp(const TriOracle& o, int n) {
  size_t N = o.m.nVertices();
  MC K = MC::Identity(N, N) * 1e-9;
  for (Face f : o.m.faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      size_t i = o.vi[h.tailVertex().getIndex()], j = o.vi[h.tipVertex().getIndex()];
      double w = (double)o.cot[h.getIndex()] / 2;
      C r = ipow(toC(o.along(h)), n);
      K(i, i) += w, K(j, j) += w, K(j, i) -= w * r, K(i, j) -= w * std::conj(r);
    }
  return K;
}
static MC faceOp(const TriOracle& o, int n) {
  size_t N = o.m.nFaces();
  MC K = MC::Identity(N, N) * 1e-9;
  for (Edge e : o.m.edges()) {
    if (e.isBoundary()) continue;
    Halfedge h = e.halfedge();
    size_t i = o.fi[h.face().getIndex()], j = o.fi[h.twin().face().getIndex()];
    C r = ipow(toC(o.across(h)), n);
    K(i, i) += 1, K(j, j) += 1, K(j, i) -= r, K(i, j) -= std::conj(r);
  }
  return K;
}
static MC vertexMass(const TriOracle& o) {
  size_t N = o.m.nVertices();
  MC M = MC::Zero(N, N);
  for (Face f : o.m.faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      size_t i = o.vi[h.tailVertex().getIndex()], j = o.vi[h.tipVertex().getIndex()];
      M(i, i) += (double)o.A(f) / 6, M(i, j) += (double)o.A(f) / 12, M(j, i) += (double)o.A(f) / 12;
    }
  return M;
}
static MC faceMass(const TriOracle& o) {
  MC M = MC::Zero(o.m.nFaces(), o.m.nFaces());
  for (Face f : o.m.faces()) M(o.fi[f.getIndex()], o.fi[f.getIndex()]) = (double)o.A(f);
  return M;
}
static VC dense(const TriOracle& o, const VertexData<Vector2>& d) {
  VC r(o.m.nVertices());
  for (Vertex v : o.m.vertices()) r(o.vi[v.getIndex()]) = C(d[v].x, d[v].y);
  return r;
}
static VC dense(const TriOracle& o, const FaceData<Vector2>& d) {
  VC r(o.m.nFaces());
  for (Face f : o.m.faces()) r(o.fi[f.getIndex()]) = C(d[f].x, d[f].y);
  return r;
}
// the directions of x, where it has any
static void sameDirections(G& g, const VC& got, const VC& x, bool phase, double tol, const char* what) {
  double top = x.cwiseAbs().maxCoeff();
  C turn = 1;
  if (phase) {
    turn = 0;
    for (int i = 0; i < x.size(); i++)
      if (std::abs(x(i)) > 1e-3 * top) turn += got(i) * std::conj(x(i)) / top;
    REQ(g, std::abs(turn) > 0, what);
    turn /= std::abs(turn);
  }
  for (int i = 0; i < x.size(); i++) {
    double a = std::abs(x(i)) / top;
    if (a < 1e-3) continue;
    REQ_NEAR(g, std::abs(got(i)), 1, 1e-9, what << ": unit length at " << i);
    REQ_NEAR(g, std::abs(got(i) - turn * x(i) / std::abs(x(i))), 0, tol / a, what << ": direction at " << i);
  }
}

// ---------------------------------------------------------------- smoothest fields
static void smoothest(G& g) {
  Geo w = genMesh(g, 50);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  int n = g.range(1, 4);
  bool faces = g.coin();
  g.note("symmetry", n);
  MC A = faces ? faceOp(o, n) : vertexOp(o, n), M = faces ? faceMass(o) : vertexMass(o);
  Eigen::GeneralizedSelfAdjointEigenSolver<MC> es(A, M);
  if (es.info() != Eigen::Success) g.discard();
  std::vector<std::pair<double, int>> ev;
  for (int i = 0; i < A.rows(); i++) ev.push_back({std::fabs(es.eigenvalues()(i)), i});
  std::sort(ev.begin(), ev.end());
  if (ev.size() < 2 || ev[1].first < 1e-6) g.discard();
  double q = std::pow(ev[0].first / ev[1].first, 50); // 50 inverse iterations from a random start
  if (q > 1e-9) {
    g.label("close eigenvalues");
    return;
  }
  g.nontrivial();
  g.label(w.mesh->hasBoundary() ? "boundary" : "closed");
  g.label(faces ? "faces" : "vertices");
  VC x = es.eigenvectors().col(ev[0].second);
  Own own;
  IntrinsicGeometryInterface& geo = own.of(g, w);
  VC got = faces ? dense(o, computeSmoothestFaceDirectionField(geo, n)) : dense(o, computeSmoothestVertexDirectionField(geo, n));
  sameDirections(g, got, x, true, 1e-5, "smoothest field");
}

// a general SurfaceMesh gives the face fields of its manifold twin
static void generalMesh(G& g) {
  GenOpts o;
  o.maxFaces = 40;
  Geo w = genTriGeo(g, o, false, .2, 0);
  if (!oneComponent(*w.mesh)) g.discard();
  std::vector<std::vector<size_t>> polys;
  for (Face f : w.mesh->faces()) {
    std::vector<size_t> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(v.getIndex());
    polys.push_back(p);
  }
  if (w.mesh->nVertices() != w.mesh->nVerticesCapacity()) g.discard();
  SurfaceMesh sm(polys);
  VertexData<Vector3> pos(sm);
  for (Vertex v : sm.vertices()) pos[v] = w.pos[w.mesh->vertex(v.getIndex())];
  VertexPositionGeometry geo(sm, pos);
  int n = g.range(1, 4);
  TriOracle a(*w.mesh, [&](Edge e) { return norm(V3L(w.pos[e.firstVertex()]) - V3L(w.pos[e.secondVertex()])); });
  TriOracle b(sm, [&](Edge e) { return norm(V3L(pos[e.firstVertex()]) - V3L(pos[e.secondVertex()])); });
  MC A = faceOp(a, n), M = faceMass(a);
  geo.requireFaceConnectionLaplacian();
  {
    MC L = MC(geo.faceConnectionLaplacian);
    REQ(g, L.allFinite(), "face connection Laplacian of a general mesh");
    REQ_NEAR(g, (L - L.adjoint()).norm(), 0, 1e-9, "face connection Laplacian of a general mesh is Hermitian");
    REQ_NEAR(g, std::fabs(L.trace().real() - (faceOp(a, 1).trace().real())), 0, 1e-6, "trace of the face connection Laplacian");
  }
  if (w.mesh->hasBoundary()) g.label("boundary");
  g.nontrivial();
  Eigen::GeneralizedSelfAdjointEigenSolver<MC> es(A, M);
  if (es.info() != Eigen::Success || A.rows() < 2) return;
  const auto& ev = es.eigenvalues();
  if (ev(1) < 1e-6 || std::pow(std::fabs(ev(0)) / ev(1), 50) > 1e-9) return;
  g.label("compared");
  VC x = es.eigenvectors().col(0);
  FaceData<Vector2> d = computeSmoothestFaceDirectionField(geo, n);
  // (both meshes list their faces and halfedges of faces in the same order)
  VC got(x.size());
  for (Face f : sm.faces()) {
    Face h = w.mesh->face(f.getIndex());
    REQ(g, f.halfedge().vertex().getIndex() == h.halfedge().vertex().getIndex(), "same first corner");
    got(f.getIndex()) = C(d[f].x, d[f].y);
  }
  sameDirections(g, got, x, true, 1e-5, "smoothest field of a general mesh");
}

// ---------------------------------------------------------------- boundary and curvature alignment
static void boundaryAligned(G& g) {
  Geo w = genMesh(g, 50);
  int n = g.range(1, 4);
  Own own;
  IntrinsicGeometryInterface& geo = own.of(g, w);
  if (!w.mesh->hasBoundary()) {
    REQ_THROWS(g, computeSmoothestBoundaryAlignedVertexDirectionField(geo, n), "boundary-aligned field on a closed mesh");
    REQ_THROWS(g, computeSmoothestBoundaryAlignedFaceDirectionField(geo, n), "boundary-aligned field on a closed mesh");
    return;
  }
  TriOracle o = oracleOf(*w.mesh, w.pos);
  bool faces = g.coin();
  MC A = faces ? faceOp(o, n) : vertexOp(o, n);
  int N = A.rows();
  std::vector<char> fixed(N, 0);
  VC x = VC::Zero(N);
  if (faces) {
    for (Face f : w.mesh->faces()) {
      LC s = 0;
      int k = 0;
      for (Halfedge h : f.adjacentHalfedges())
        if (h.edge().isBoundary()) s += o.vecInFace(h) * LC(0, -1), k++;
      if (k == 3) g.discard();
      if (k) fixed[o.fi[f.getIndex()]] = 1, x(o.fi[f.getIndex()]) = ipow(toC(s / std::abs(s)), n);
    }
  } else
    for (Vertex v : w.mesh->vertices())
      if (v.isBoundary()) fixed[o.vi[v.getIndex()]] = 1, x(o.vi[v.getIndex()]) = ipow(C(0, -1), n);
  std::vector<int> in;
  for (int i = 0; i < N; i++)
    if (!fixed[i]) in.push_back(i);
  FaceData<Vector2> ff;
  VertexData<Vector2> vf;
  VC got;
  if (!faces) {
    vf = computeSmoothestBoundaryAlignedVertexDirectionField(geo, n), got = dense(o, vf);
    // the normal is the same vector all along the boundary, so the indices add up as on a closed surface
    bool close = false;
    for (int i = 0; i < N; i++)
      if (!std::isfinite(std::abs(got(i)))) close = true;
    FaceData<int> ix = close ? FaceData<int>() : computeFaceIndex(geo, vf, n);
    for (Edge e : w.mesh->edges()) {
      C d = got(o.vi[e.secondVertex().getIndex()]) / (got(o.vi[e.firstVertex().getIndex()]) * ipow(toC(o.along(e.halfedge())), n));
      if (std::abs(d + 1.) < 1e-6) close = true;
    }
    if (!close) {
      int sum = 0;
      for (Face f : w.mesh->faces()) sum += ix[f];
      int chi = (int)w.mesh->nVertices() - (int)w.mesh->nEdges() + (int)w.mesh->nFaces();
      REQ(g, sum == n * chi, "indices of a boundary-aligned field sum to " << sum << " for " << n << " times " << chi);
    }
  } else
    ff = computeSmoothestBoundaryAlignedFaceDirectionField(geo, n), got = dense(o, ff);
  for (int i = 0; i < N; i++)
    if (fixed[i]) REQ_NEAR(g, std::abs(got(i) - x(i)), 0, 1e-6, "boundary value at " << i);
  if (in.empty()) return;
  MC S(in.size(), in.size());
  VC b = VC::Zero(in.size());
  for (size_t i = 0; i < in.size(); i++) {
    for (size_t j = 0; j < in.size(); j++) S(i, j) = A(in[i], in[j]);
    for (int j = 0; j < N; j++)
      if (fixed[j]) b(i) -= A(in[i], j) * x(j);
  }
  Eigen::FullPivLU<MC> lu(S);
  if (lu.rcond() < 1e-7) g.discard();
  VC y = lu.solve(b), gy(in.size());
  for (size_t i = 0; i < in.size(); i++) gy(i) = got(in[i]);
  if (y.cwiseAbs().maxCoeff() < 1e-6) return;
  g.nontrivial();
  g.label(faces ? "faces" : "vertices");
  sameDirections(g, gy, y, false, 1e-6, "boundary-aligned field");
}

static void curvatureAligned(G& g) {
  Geo w = genMesh(g, 50);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  VertexPositionGeometry& geo = *w.vpg;
  for (int n : {1, 3, 5}) {
    REQ_THROWS(g, computeCurvatureAlignedVertexDirectionField(geo, n), "curvature-aligned field of symmetry " << n);
    REQ_THROWS(g, computeCurvatureAlignedFaceDirectionField(geo, n), "curvature-aligned field of symmetry " << n);
  }
  int n = g.coin() ? 4 : 2;
  bool faces = g.coin();
  // principal directions: curvature of each edge turned into its perpendicular, in the 2-fold representation
  geo.requireEdgeDihedralAngles();
  VC q;
  if (faces) {
    q = VC::Zero(o.m.nFaces());
    for (Face f : o.m.faces())
      for (Halfedge h : f.adjacentHalfedges()) {
        C v = toC(o.vecInFace(h));
        q(o.fi[f.getIndex()]) -= v * v / (double)o.L(h.edge()) * geo.edgeDihedralAngles[h.edge()] / 4.;
      }
  } else {
    q = VC::Zero(o.m.nVertices());
    for (Halfedge h : o.m.halfedges()) {
      C v = toC(o.vecInVertex(h));
      q(o.vi[h.vertex().getIndex()]) -= v * v / (double)o.L(h.edge()) * geo.edgeDihedralAngles[h.edge()] / 4.;
    }
  }
  if (q.cwiseAbs().maxCoeff() < 1e-6) g.discard();
  if (n == 4) q = q.cwiseProduct(q);
  MC A = faces ? faceOp(o, n) : vertexOp(o, n), M = faces ? faceMass(o) : vertexMass(o);
  Eigen::FullPivLU<MC> lu(A);
  if (lu.rcond() < 1e-7) g.discard();
  VC x = lu.solve(M * q);
  g.nontrivial();
  g.label(faces ? "faces" : "vertices");
  VC got = faces ? dense(o, computeCurvatureAlignedFaceDirectionField(geo, n)) : dense(o, computeCurvatureAlignedVertexDirectionField(geo, n));
  sameDirections(g, got, x, false, 1e-5, "curvature-aligned field");
}

// ---------------------------------------------------------------- indices
static double wrap(double a) { return a - TAU * std::round(a / TAU); }
static void indices(G& g) {
  Geo w = genMesh(g, 60, .1);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  Own own;
  IntrinsicGeometryInterface& geo = own.of(g, w);
  int n = g.range(1, 6);
  g.note("symmetry", n);
  double spread = g.pick(std::vector<double>{3.2, 1., .3});
  Vector2 d0 = Vector2::fromAngle(g.jitter(3));
  ManifoldSurfaceMesh& m = *w.man;
  VertexData<Vector2> vf(m);
  for (Vertex v : m.vertices()) vf[v] = (d0 * Vector2::fromAngle(g.jitter(spread))) * g.pick(std::vector<double>{1, .5, 7});
  bool bad = false;
  int chi = (int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces(), sum = 0;
  // field at the end of a halfedge against the transported one from its start
  auto turn = [&](Halfedge h) {
    Vector2 a = vf[h.tailVertex()], b = vf[h.tipVertex()];
    double t = std::arg(C(b.x, b.y) / (C(a.x, a.y) * ipow(toC(o.along(h)), n)));
    if (M_PI - std::fabs(t) < 1e-6) bad = true;
    return t;
  };
  std::vector<int> want;
  for (Face f : m.faces()) {
    double K = -M_PI, s = 0;
    for (Halfedge h : f.adjacentHalfedges()) K += (double)o.scaled[h.getIndex()], s += turn(h);
    double t = (n * K + s) / TAU;
    REQ_NEAR(g, t, std::round(t), 1e-6, "oracle");
    want.push_back((int)std::round(t));
  }
  if (!bad) {
    FaceData<int> ix = computeFaceIndex(geo, vf, n);
    size_t k = 0;
    for (Face f : m.faces()) {
      REQ(g, ix[f] == want[k], "index of face " << f << " is " << ix[f] << " for " << want[k]);
      if (ix[f]) g.nontrivial();
      sum += ix[f], k++;
    }
    if (!m.hasBoundary()) REQ(g, sum == n * chi, "face indices sum to " << sum << ", " << n << " times " << chi);
  }
  // fields on faces
  FaceData<Vector2> ff(m);
  for (Face f : m.faces()) ff[f] = (d0 * Vector2::fromAngle(g.jitter(spread))) * g.pick(std::vector<double>{1, .5, 7});
  bad = false;
  want.clear();
  for (Vertex v : m.vertices()) {
    double s = 0;
    want.push_back(0);
    if (v.isBoundary()) continue;
    for (Halfedge h : v.incomingHalfedges()) {
      Vector2 a = ff[h.face()], b = ff[h.twin().face()];
      double t = std::arg(C(b.x, b.y) / (C(a.x, a.y) * ipow(toC(o.across(h)), n)));
      if (M_PI - std::fabs(t) < 1e-6) bad = true;
      s += t;
    }
    double t = (n * (TAU - (double)o.angSum[v.getIndex()]) + s) / TAU;
    REQ_NEAR(g, t, std::round(t), 1e-6, "oracle");
    want.back() = (int)std::round(t);
  }
  if (bad) return;
  VertexData<int> ix = computeVertexIndex(geo, ff, n);
  size_t k = 0;
  sum = 0;
  for (Vertex v : m.vertices()) {
    REQ(g, ix[v] == want[k], "index of vertex " << v << " is " << ix[v] << " for " << want[k]);
    if (ix[v]) g.nontrivial();
    sum += ix[v], k++;
  }
  if (!m.hasBoundary()) REQ(g, sum == n * chi, "vertex indices sum to " << sum << ", " << n << " times " << chi);
}

#include "stripes.h"

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C28",
                   "connected triangle meshes of up to 60 faces (closed, with boundary, with gaps), positions or edge lengths, symmetries 1 to 6; flat tori with plane waves; "
                   "non-trivial: the stated operator decides the field, some index is not zero, some stripe crosses the mesh",
                   {{"smoothest", smoothest, 1500, 30000},
                    {"general", generalMesh, 800, 10000},
                    {"boundary", boundaryAligned, 2500, 60000},
                    {"curvature", curvatureAligned, 2000, 40000},
                    {"indices", indices, 4000, 100000},
                    {"stripes", stripes, 1500, 30000},
                    {"waves", planeWaves, 600, 15000},
                    {"polylines", polylines, 1500, 30000}},
                   {"smoothest fields are compared where 50 inverse iterations separate the first two eigenvalues; directions where the solution is below 1e-3 of its "
                    "maximum are not compared"}});
  return pbt::run(argc, argv, specs);
}
