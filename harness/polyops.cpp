// C11: operators for polygon meshes (virtual refinement, and virtual elements)
#include "polygeo.h"
#include "pbt_main.h"
#include "geometrycentral/surface/polygon_mesh_helpers.h"

using namespace mg;

// local matrices of the virtual-element operators
struct VEM {
  M X, E, B, U, G, P, Min, L;
  V3 N;
  LD A;
  VEM(const M& X_) : X(X_) {
    int n = X.rows();
    V3 a = vecArea2(X) / 2;
    A = a.norm();
    N = a / A;
    M D = M::Zero(n, n), Av = M::Zero(n, n);
    for (int i = 0; i < n; i++) {
      D(i, (i + 1) % n) += 1;
      D(i, i) -= 1;
      Av(i, i) += .5L;
      Av(i, (i + 1) % n) += .5L;
    }
    E = D * X;
    B = Av * X;
    Vx c = X.colwise().mean().transpose();
    Eigen::Matrix<LD, 3, 3> br;
    br << 0, -N(2), N(1), N(2), 0, -N(0), -N(1), N(0), 0;
    U = br * (B.transpose() - c * Vx::Ones(n).transpose()) / A;
    G = -br * E.transpose() * Av / A;
    M V = E * (M::Identity(3, 3) - N * N.transpose());
    P = M::Identity(n, n) - V * U;
    Min = A * U.transpose() * U + P.transpose() * P;
    L = D.transpose() * Min * D;
  }
};

// minimiser of the sum of squared triangle areas of the fan
static V3 virtualPoint(const M& X) {
  int n = X.rows();
  V3 c = X.colwise().mean().transpose();
  Eigen::Matrix<LD, 3, 3> H = Eigen::Matrix<LD, 3, 3>::Zero();
  V3 r = V3::Zero();
  for (int i = 0; i < n; i++) { // (xi-p) x (xj-p) = xi x xj - [d] p  with d = xj - xi ... signs below
    V3 a = V3(X.row(i)) - c, b = V3(X.row((i + 1) % n)) - c;
    V3 d = a - b; // (a-p)x(b-p) = a x b + p x (a - b) = a x b - [d]p
    Eigen::Matrix<LD, 3, 3> br;
    br << 0, -d(2), d(1), d(2), 0, -d(0), -d(1), d(0), 0;
    H += br.transpose() * br;
    r += br.transpose() * a.cross(b);
  }
  V3 p = H.ldlt().solve(r);
  return p + c;
}

static void addM(Sp& s, const std::vector<size_t>& r, const std::vector<size_t>& c, const M& m) {
  for (size_t i = 0; i < r.size(); i++)
    for (size_t j = 0; j < c.size(); j++) add(s, r[i], c[j], m(i, j));
}
static LD minEig(const Eigen::SparseMatrix<double>& A) {
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Eigen::MatrixXd((Eigen::MatrixXd(A) + Eigen::MatrixXd(A).transpose()) / 2), Eigen::EigenvaluesOnly);
  return es.eigenvalues().minCoeff();
}
static double maxAbs(const Eigen::SparseMatrix<double>& A) {
  double m = 0;
  for (int k = 0; k < A.outerSize(); k++)
    for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) m = std::max(m, std::fabs(it.value()));
  return m;
}
static Eigen::MatrixXd coords(Geo& w) {
  Eigen::MatrixXd X(w.mesh->nVertices(), 3);
  int i = 0;
  for (Vertex v : w.mesh->vertices()) {
    for (int k = 0; k < 3; k++) X(i, k) = w.pos[v][k];
    i++;
  }
  return X;
}

static void refinement(G& g, bool general, bool flat) {
  Geo w = genPolyGeo(g, general, flat, 5);
  SurfaceMesh& m = *w.mesh;
  size_t nV = m.nVertices();
  VertexData<size_t> vi = m.getVertexIndices();
  VertexPositionGeometry& geo = *w.vpg;
  geo.requireSimplePolygonLaplacian();
  geo.requireSimplePolygonVertexGalerkinMassMatrix();
  geo.requireSimplePolygonVertexLumpedMassMatrix();
  Sp L, Mm;
  LD area = 0;
  bool thin = false, folded = false;
  for (Face f : m.faces()) {
    M X = posOf(w, f);
    int n = X.rows();
    std::vector<size_t> id;
    for (Vertex v : f.adjacentVertices()) id.push_back(vi[v]);
    LD sz = perimeter(X);
    // the virtual vertex
    Eigen::VectorXd wt = simplePolygonVirtualVertex(X.cast<double>());
    Vx wl = wt.cast<LD>();
    V3 p = virtualPoint(X), have = X.transpose() * wl;
    LD off = X.cwiseAbs().maxCoeff(); // distance from the origin limits the accuracy of the input
    REQ(g, (int)wt.size() == n, "number of weights");
    if (!(fabsl(wl.sum() - 1) < 1e-7)) g.fail("virtual vertex weights of a " + std::to_string(n) + "-gon do not sum to one");
    if (!((have - p).norm() < 1e-6 * sz + 1e-11 * off)) {
      std::ostringstream os;
      os << "virtual vertex of a " << n << "-gon of size " << (double)sz << " is " << (double)((have - p).norm() / sz)
         << " sizes away from the minimiser of the squared areas";
      g.fail(os.str());
    }
    M Y = X;
    for (int i = 0; i < n; i++) Y.row(i) -= X.colwise().mean();
    Eigen::JacobiSVD<M> svd(Y, Eigen::ComputeThinU | Eigen::ComputeThinV);
    Vx sv = svd.singularValues();
    if (n == 3 || sv(2) > 1e-2 * sv(0)) { // full rank: the least-norm weights are well conditioned
      V3 q = p - V3(X.colwise().mean().transpose());
      Vx z = Vx::Constant(n, 1.L / n);
      for (int k = 0; k < (n == 3 ? 2 : 3); k++) z += svd.matrixU().col(k) * (svd.matrixV().col(k).dot(q)) / sv(k);
      if (!((z - wl).norm() < 1e-5 * (1 + z.norm()))) g.fail("virtual vertex weights do not have the least norm");
    }
    // fan
    M K = M::Zero(n + 1, n + 1), MM = M::Zero(n + 1, n + 1);
    for (int i = 0; i < n; i++) {
      int t[3] = {i, (i + 1) % n, n};
      V3 q[3] = {X.row(i).transpose(), X.row((i + 1) % n).transpose(), have};
      LD a = (q[1] - q[0]).cross(q[2] - q[0]).norm() / 2;
      if ((q[1] - q[0]).cross(q[2] - q[0]).dot(vecArea2(X)) <= 0) folded = true;
      LD sq = 0;
      for (int k = 0; k < 3; k++) sq += (q[k] - q[(k + 1) % 3]).squaredNorm();
      if (a < 1e-3 * sq) thin = true;
      for (int k = 0; k < 3; k++) {
        int i1 = t[(k + 1) % 3], i2 = t[(k + 2) % 3];
        LD c = (q[(k + 1) % 3] - q[k]).dot(q[(k + 2) % 3] - q[k]) / (4 * a); // cot/2
        K(i1, i1) += c;
        K(i2, i2) += c;
        K(i1, i2) -= c;
        K(i2, i1) -= c;
        for (int l = 0; l < 3; l++) MM(t[k], t[l]) += a / (k == l ? 6 : 12);
      }
      area += a;
    }
    M P = M::Zero(n + 1, n);
    P.topRows(n) = M::Identity(n, n);
    P.row(n) = wl.transpose();
    if (!thin) addM(L, id, id, P.transpose() * K * P);
    addM(Mm, id, id, P.transpose() * MM * P);
  }
  double far = 0; // loss of accuracy by translation
  for (Vertex v : m.vertices()) far = std::max(far, norm(w.pos[v]));
  cmpSparse(g, geo.simplePolygonVertexGalerkinMassMatrix, Mm, nV, nV, 1e-6, "simplePolygonVertexGalerkinMassMatrix");
  Eigen::VectorXd one = Eigen::VectorXd::Ones(nV);
  double tot = one.dot(geo.simplePolygonVertexGalerkinMassMatrix * one);
  REQ_NEAR(g, tot, (double)area, 1e-6 * (double)area, "total mass vs area of the refined surface");
  Sp lump;
  for (auto& e : Mm) add(lump, e.first.first, e.first.first, e.second);
  cmpSparse(g, geo.simplePolygonVertexLumpedMassMatrix, lump, nV, nV, 1e-6, "simplePolygonVertexLumpedMassMatrix");
  if (thin) {
    g.label("flat corner: stiffness not compared");
    return;
  }
  auto& S = geo.simplePolygonLaplacian;
  cmpSparse(g, S, L, nV, nV, 1e-5, "simplePolygonLaplacian");
  double sc = maxAbs(S);
  REQ(g, (S * one).lpNorm<Eigen::Infinity>() < 1e-6 * sc, "simplePolygonLaplacian of constants");
  REQ(g, maxAbs(Eigen::SparseMatrix<double>(S - Eigen::SparseMatrix<double>(S.transpose()))) <= 1e-9 * sc, "simplePolygonLaplacian is not symmetric");
  if (nV < 60) REQ(g, minEig(S) > -1e-7 * sc * nV, "simplePolygonLaplacian has a negative eigenvalue " << (double)minEig(S));
  g.label(folded ? "fan folds over" : "star-shaped polygons");
  if (flat && !folded) { // linear functions are harmonic inside
    Eigen::MatrixXd X = coords(w), R = S * (X.rowwise() - X.colwise().mean());
    for (Vertex v : m.vertices())
      if (!v.isBoundary()) REQ(g, R.row(vi[v]).norm() < 1e-6 * sc * X.rowwise().norm().maxCoeff() * 3, "linear functions on a planar mesh are not in the kernel");
  }
  bool tri = m.isTriangular();
  if (tri) {
    geo.requireCotanLaplacian();
    REQ(g, maxAbs(Eigen::SparseMatrix<double>(S - geo.cotanLaplacian)) < 1e-6 * sc, "simplePolygonLaplacian differs from the cotan Laplacian on a triangle mesh");
  }
}

static void virtualElements(G& g, bool general, bool flat) {
  Geo w = genPolyGeo(g, general, flat, 5);
  SurfaceMesh& m = *w.mesh;
  size_t nV = m.nVertices(), nF = m.nFaces(), nH = m.nHalfedges();
  VertexData<size_t> vi = m.getVertexIndices();
  HalfedgeData<size_t> hi = m.getHalfedgeIndices();
  FaceData<size_t> fi = m.getFaceIndices();
  VertexPositionGeometry& geo = *w.vpg;
  geo.requirePolygonLaplacian();
  geo.requirePolygonGradientMatrix();
  geo.requirePolygonDivergenceMatrix();
  geo.requirePolygonVertexLumpedMassMatrix();
  geo.requirePolygonDECOperators();
  Sp L, Gr, Dv, Ms, h0, h0i, h1, h2, h2i, d0, d1;
  LD area = 0;
  for (Face f : m.faces()) {
    VEM q(posOf(w, f));
    std::vector<size_t> v, h, r;
    for (Halfedge he : f.adjacentHalfedges()) {
      v.push_back(vi[he.vertex()]);
      h.push_back(hi[he]);
      add(d0, hi[he], vi[he.vertex()], -1);
      add(d0, hi[he], vi[he.next().vertex()], 1);
      add(d1, fi[f], hi[he], 1);
      add(Ms, vi[he.vertex()], vi[he.vertex()], q.A / f.degree());
    }
    for (size_t k = 0; k < 3; k++) r.push_back(3 * fi[f] + k);
    addM(L, v, v, q.L);
    addM(Gr, r, v, q.G);
    addM(Dv, v, r, q.G.transpose() * q.A);
    addM(h1, h, h, q.Min);
    add(h2, fi[f], fi[f], 1 / q.A);
    add(h2i, fi[f], fi[f], q.A);
    area += q.A;
  }
  for (auto& e : Ms) add(h0i, e.first.first, e.first.first, LC(1) / e.second);
  double tol = 1e-8;
  cmpSparse(g, geo.polygonLaplacian, L, nV, nV, tol, "polygonLaplacian");
  cmpSparse(g, geo.polygonGradientMatrix, Gr, 3 * nF, nV, tol, "polygonGradientMatrix");
  cmpSparse(g, geo.polygonDivergenceMatrix, Dv, nV, 3 * nF, tol, "polygonDivergenceMatrix");
  cmpSparse(g, geo.polygonVertexLumpedMassMatrix, Ms, nV, nV, tol, "polygonVertexLumpedMassMatrix");
  cmpSparse(g, geo.polygonHodge0, Ms, nV, nV, tol, "polygonHodge0");
  cmpSparse(g, geo.polygonHodge0Inverse, h0i, nV, nV, tol, "polygonHodge0Inverse");
  cmpSparse(g, geo.polygonHodge1, h1, nH, nH, tol, "polygonHodge1");
  cmpSparse(g, geo.polygonHodge2, h2, nF, nF, tol, "polygonHodge2");
  cmpSparse(g, geo.polygonHodge2Inverse, h2i, nF, nF, tol, "polygonHodge2Inverse");
  cmpSparse(g, geo.polygonD0, d0, nH, nV, 0, "polygonD0");
  cmpSparse(g, geo.polygonD1, d1, nF, nH, 0, "polygonD1");
  double sc = maxAbs(geo.polygonLaplacian);
  Eigen::SparseMatrix<double> dd = geo.polygonD1 * geo.polygonD0;
  REQ(g, maxAbs(dd) == 0., "polygonD1 * polygonD0 is not zero");
  Eigen::SparseMatrix<double> LL = geo.polygonD0.transpose() * geo.polygonHodge1 * geo.polygonD0;
  REQ(g, maxAbs(Eigen::SparseMatrix<double>(LL - geo.polygonLaplacian)) < 1e-9 * sc * 10, "polygonLaplacian is not d0' h1 d0");
  Eigen::VectorXd one = Eigen::VectorXd::Ones(nV);
  REQ(g, (geo.polygonLaplacian * one).lpNorm<Eigen::Infinity>() < 1e-9 * sc * 10, "polygonLaplacian of constants");
  REQ_NEAR(g, one.dot(geo.polygonVertexLumpedMassMatrix * one), (double)area, 1e-9 * (double)area, "total mass");
  if (nV < 60) REQ(g, minEig(geo.polygonLaplacian) > -1e-9 * sc * nV, "polygonLaplacian has a negative eigenvalue");
  // the gradient of a linear function is its projection to the face
  Eigen::MatrixXd X = coords(w);
  X = (X.rowwise() - X.colwise().mean()).eval();
  Eigen::MatrixXd R = geo.polygonGradientMatrix * X;
  double far = X.rowwise().norm().maxCoeff();
  for (Face f : m.faces()) {
    VEM q(posOf(w, f));
    Eigen::Matrix3d want = (M::Identity(3, 3) - q.N * q.N.transpose()).cast<double>();
    Eigen::Matrix3d have = R.block(3 * fi[f], 0, 3, 3);
    double t = 1e-9 * (1 + far / std::sqrt((double)q.A)) * 100;
    REQ(g, (have - want).norm() < t, "gradient of the coordinate functions in a face of degree " << f.degree() << ": " << have << " expected " << want);
  }
  if (flat) {
    Eigen::MatrixXd r2 = geo.polygonLaplacian * X;
    for (Vertex v : m.vertices())
      if (!v.isBoundary()) REQ(g, r2.row(vi[v]).norm() < 1e-8 * sc * far * 10, "linear functions on a planar mesh are not in the kernel of polygonLaplacian");
  }
  if (m.isTriangular()) {
    geo.requireCotanLaplacian();
    REQ(g, maxAbs(Eigen::SparseMatrix<double>(geo.polygonLaplacian - geo.cotanLaplacian)) < 1e-6 * sc, "polygonLaplacian differs from the cotan Laplacian on a triangle mesh");
  }
}

static void connection(G& g, bool general, bool flat) {
  Geo w = genPolyGeo(g, general, flat, 4);
  SurfaceMesh& m = *w.mesh;
  size_t nV = m.nVertices();
  VertexData<size_t> vi = m.getVertexIndices();
  VertexPositionGeometry& geo = *w.vpg;
  geo.requireVertexNormals();
  needFrames(g, w);
  geo.requirePolygonVertexConnectionLaplacian();
  geo.requireVertexTangentBasis();
  bool tri = m.isTriangular();
  std::vector<V3L> bx(nV), by(nV);
  for (Vertex v : m.vertices()) {
    auto B = geo.vertexTangentBasis[v];
    Vector3 N = geo.vertexNormals[v];
    bx[vi[v]] = B[0];
    by[vi[v]] = B[1];
    REQ(g, std::fabs(norm(B[0]) - 1) < 1e-8 && norm(cross(N, B[0]) - B[1]) < 1e-8 && std::fabs(dot(N, B[0])) < 1e-8, "vertex tangent basis");
    if (!general && !tri) { // x axis along vertex.halfedge()
      V3L e = V3L(w.pos[v.halfedge().tipVertex()]) - V3L(w.pos[v]);
      e = e - V3L(N) * dot(e, V3L(N));
      REQ(g, norm(unit(e) - V3L(B[0])) < 1e-7, "x axis of the vertex tangent basis is not along vertex.halfedge()");
    }
  }
  Sp C;
  for (Face f : m.faces()) {
    VEM q(posOf(w, f));
    V3L N(q.N(0), q.N(1), q.N(2));
    V3L fx = unit(V3L(q.E(0, 0), q.E(0, 1), q.E(0, 2)) - N * dot(V3L(q.E(0, 0), q.E(0, 1), q.E(0, 2)), N)), fy = cross(N, fx);
    std::vector<LC> r;
    std::vector<size_t> id;
    for (Vertex v : f.adjacentVertices()) {
      V3L n = geo.vertexNormals[v], x = bx[vi[v]];
      V3L c = cross(n, N); // rotation taking n to N
      LD k = 1 / (1 + dot(n, N));
      V3L y = x + cross(c, x) + cross(c, cross(c, x)) * k;
      r.push_back(LC(dot(y, fx), dot(y, fy)));
      id.push_back(vi[v]);
    }
    for (size_t i = 0; i < id.size(); i++)
      for (size_t j = 0; j < id.size(); j++) add(C, id[i], id[j], std::conj(r[i]) * q.L(i, j) * r[j]);
  }
  auto& A = geo.polygonVertexConnectionLaplacian;
  cmpSparse(g, A, C, nV, nV, 1e-6, "polygonVertexConnectionLaplacian");
  Eigen::MatrixXcd D(A);
  double sc = D.cwiseAbs().maxCoeff();
  REQ(g, (D - D.adjoint()).cwiseAbs().maxCoeff() <= 1e-9 * sc, "polygonVertexConnectionLaplacian is not Hermitian");
  if (nV < 60) {
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(D, Eigen::EigenvaluesOnly);
    REQ(g, es.eigenvalues().minCoeff() > -1e-8 * sc * nV, "polygonVertexConnectionLaplacian has the negative eigenvalue " << es.eigenvalues().minCoeff() << " (largest " << es.eigenvalues().maxCoeff() << ")");
  }
  if (flat) {
    Vector3 d = geo.vertexTangentBasis[m.vertex(0)][0];
    Eigen::VectorXcd x(nV);
    for (Vertex v : m.vertices()) x(vi[v]) = std::complex<double>(dot(d, geo.vertexTangentBasis[v][0]), dot(d, geo.vertexTangentBasis[v][1]));
    REQ(g, (D * x).cwiseAbs().maxCoeff() < 1e-6 * sc * 20, "a constant field on a planar mesh is not in the kernel");
  }
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C11",
                   "polygon meshes (manifold surfaces of polygons of degree 3..8 with bending, noise and merged concave faces; planar ones; nonmanifold soups), "
                   "random similarity with scale 1e-5..1e5 and translation; every matrix compared entrywise with per-polygon long-double assembly; "
                   "non-trivial: more than 4 (manifold) or 2 (general) faces",
                   {{"refinement", [](G& g) { refinement(g, false, false); }, 3000, 60000},
                    {"refinement-planar", [](G& g) { refinement(g, false, true); }, 2000, 40000},
                    {"refinement-general", [](G& g) { refinement(g, true, false); }, 3000, 60000},
                    {"elements", [](G& g) { virtualElements(g, false, false); }, 3000, 60000},
                    {"elements-planar", [](G& g) { virtualElements(g, false, true); }, 2000, 40000},
                    {"elements-general", [](G& g) { virtualElements(g, true, false); }, 3000, 60000},
                    {"connection", [](G& g) { connection(g, false, false); }, 3000, 60000},
                    {"connection-planar", [](G& g) { connection(g, false, true); }, 2000, 40000},
                    {"connection-general", [](G& g) { connection(g, true, false); }, 3000, 60000}},
                   {"polygons have a reliable normal (area at least 0.01 of the squared perimeter) and no tiny sides"}});
  return pbt::run(argc, argv, specs);
}
