// C19: heat-based distances, scalar extension, vector transport, logarithmic maps (triangle and polygon meshes)
// C32: the signed heat method
#include "polygeo.h"
#include "pbt_main.h"
#include "pointutil.h"

#include "geometrycentral/surface/heat_method_distance.h"
#include "geometrycentral/surface/polygon_mesh_heat_solver.h"
#include "geometrycentral/surface/signed_heat_method.h"
#include "geometrycentral/surface/vector_heat_method.h"

using namespace mg;
typedef Eigen::MatrixXd MD;
typedef Eigen::VectorXd VD;
typedef Eigen::MatrixXcd MC;
typedef Eigen::VectorXcd VC;
typedef std::complex<double> C;

// ---------------------------------------------------------------- inputs
struct Inp {
  Geo w;
  std::unique_ptr<IntrinsicGeometryInterface> own;
  IntrinsicGeometryInterface* geom = nullptr;
  bool flatTorus = false;
  std::vector<Vector2> torusPos; // by raw vertex index, planar coordinates modulo the lattice
  std::function<C(Halfedge)> torusVec;
};

static bool connected(SurfaceMesh& m) {
  std::vector<int> seen(m.nVerticesCapacity(), 0);
  std::vector<Vertex> st{m.vertex(0)};
  Vertex v0 = *m.vertices().begin();
  st[0] = v0;
  seen[v0.getIndex()] = 1;
  size_t n = 1;
  while (!st.empty()) {
    Vertex v = st.back();
    st.pop_back();
    for (Edge e : v.adjacentEdges())
      for (Vertex u : {e.firstVertex(), e.secondVertex()})
        if (!seen[u.getIndex()]) seen[u.getIndex()] = 1, n++, st.push_back(u);
  }
  return n == m.nVertices();
}

// a flat torus: a periodic grid with shaken points
static void makeFlatTorus(G& g, Inp& I, int lo = 3, int hi = 6) {
  int nx = g.range(lo, hi), ny = g.range(lo, hi);
  double px = g.real(.7, 1.4) * nx, shear = g.jitter(.3) * nx, py = ny;
  std::vector<Vector2> P;
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++)
      P.push_back(Vector2{px * (i + g.jitter(.15)) / nx, 0} + Vector2{shear, py} * ((j + g.jitter(.15)) / ny));
  auto id = [&](int i, int j) { return (size_t)(((j + ny) % ny) * nx + (i + nx) % nx); };
  std::vector<std::vector<size_t>> tris;
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) {
      if (g.coin()) {
        tris.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
        tris.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
      } else {
        tris.push_back({id(i, j), id(i + 1, j), id(i, j + 1)});
        tris.push_back({id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
      }
    }
  I.w.man = new ManifoldSurfaceMesh(tris);
  I.w.mesh.reset(I.w.man);
  auto diff = [=](Vertex a, Vertex b) { // nearest representative
    Vector2 d = P[b.getIndex()] - P[a.getIndex()], best = d;
    for (int x = -2; x <= 2; x++)
      for (int y = -1; y <= 1; y++) {
        Vector2 c = d + Vector2{px * x, 0} + Vector2{shear, py} * y;
        if (c.norm() < best.norm()) best = c;
      }
    return best;
  };
  I.torusVec = [=](Halfedge h) { return C(diff(h.tailVertex(), h.tipVertex())); };
  EdgeData<double> len(*I.w.mesh);
  for (Edge e : I.w.mesh->edges()) len[e] = std::abs(I.torusVec(e.halfedge()));
  // the faces must be the planar ones
  for (Face f : I.w.mesh->faces()) {
    C s = 0, a = I.torusVec(f.halfedge()), b = I.torusVec(f.halfedge().next());
    for (Halfedge h : f.adjacentHalfedges()) s += I.torusVec(h);
    double ar = std::imag(std::conj(a) * b);
    if (std::abs(s) > 1e-9 || ar < .15 * std::abs(a) * std::abs(b)) g.discard();
  }
  I.flatTorus = true;
  I.own.reset(new EdgeLengthGeometry(*I.w.mesh, len));
  I.geom = I.own.get();
  I.torusPos = P;
  g.note("flat torus ", nx, "x", ny);
  g.label("flat torus");
  g.nontrivial();
}

static TriOracle oracleOf(Inp& I) {
  if (I.flatTorus) return TriOracle(*I.w.mesh, [&](Edge e) { return (LD)std::abs(I.torusVec(e.halfedge())); });
  return mg::oracleOf(*I.w.mesh, I.w.pos);
}

static Inp genInp(G& g, bool general, int maxExp = 3) {
  Inp I;
  if (!general && g.chance(.15)) {
    makeFlatTorus(g, I);
    return I;
  }
  if (general)
    I.w = genGeneralTriGeo(g, 14, .15, maxExp);
  else {
    GenOpts o;
    o.maxFaces = 60;
    I.w = genTriGeo(g, o, true, .2, maxExp);
  }
  if (!connected(*I.w.mesh)) g.discard();
  if (g.chance(.3)) {
    EdgeData<double> len(*I.w.mesh);
    for (Edge e : I.w.mesh->edges()) len[e] = norm(I.w.pos[e.firstVertex()] - I.w.pos[e.secondVertex()]);
    I.own.reset(new EdgeLengthGeometry(*I.w.mesh, len));
    I.geom = I.own.get();
    g.label("edge lengths");
  } else
    I.geom = I.w.vpg.get();
  return I;
}

// ---------------------------------------------------------------- dense operators
struct Ops {
  MD M, L;
  MC K; // connection Laplacian
  double h = 0;
  Ops(const TriOracle& o, bool conn) {
    SurfaceMesh& m = o.m;
    size_t n = m.nVertices();
    M = L = MD::Zero(n, n);
    if (conn) K = MC::Zero(n, n);
    for (Edge e : m.edges()) h += (double)o.L(e) / m.nEdges();
    for (Face f : m.faces())
      for (Halfedge x : f.adjacentHalfedges()) {
        size_t i = o.vi[x.tailVertex().getIndex()], j = o.vi[x.tipVertex().getIndex()];
        double w = (double)o.cot[x.getIndex()] / 2;
        L(i, i) += w, L(j, j) += w, L(i, j) -= w, L(j, i) -= w;
        M(i, i) += (double)o.A(f) / 3;
        if (conn) {
          LC r = o.along(x); // tail -> tip
          C c((double)r.real(), (double)r.imag());
          K(i, i) += w, K(j, j) += w;
          K(j, i) -= w * c, K(i, j) -= w * std::conj(c);
        }
      }
  }
};

static bool delaunay(const TriOracle& o, double eps) {
  for (Edge e : o.m.edges()) {
    LD c = 0;
    for (Halfedge h : e.adjacentHalfedges())
      if (h.isInterior()) c += o.cot[h.getIndex()];
    if (c < eps) return false;
  }
  return true;
}

static double minPos(const VD& u) { return u.minCoeff() / u.cwiseAbs().maxCoeff(); }

// solve L x = b for b summing to zero, x of zero mean; lam: smallest positive eigenvalue
static VD poisson(const MD& L, VD b, double& lam) {
  Eigen::SelfAdjointEigenSolver<MD> es(L);
  const VD& ev = es.eigenvalues();
  double big = ev.cwiseAbs().maxCoeff();
  VD x = VD::Zero(b.size());
  lam = big;
  for (int i = 0; i < b.size(); i++) {
    if (std::fabs(ev(i)) < 1e-9 * big) continue;
    lam = std::min(lam, std::fabs(ev(i)));
    x += es.eigenvectors().col(i) * (es.eigenvectors().col(i).dot(b) / ev(i));
  }
  return x;
}

static std::vector<SurfacePoint> genSources(G& g, SurfaceMesh& m, int maxN) {
  std::vector<SurfacePoint> S;
  int k = g.range(1, maxN);
  bool verts = g.coin();
  for (int i = 0; i < k; i++) {
    SurfacePoint p = verts ? SurfacePoint(pickVertex(g, m)) : genPoint(g, m);
    S.push_back(p);
  }
  for (auto& p : S) g.note("source ", p);
  return S;
}

static VD weights(const TriOracle& o, const SurfacePoint& p) {
  VD r = VD::Zero(o.m.nVertices());
  if (p.type == SurfacePointType::Vertex)
    r(o.vi[p.vertex.getIndex()]) = 1;
  else if (p.type == SurfacePointType::Edge) {
    r(o.vi[p.edge.halfedge().tailVertex().getIndex()]) += 1 - p.tEdge;
    r(o.vi[p.edge.halfedge().tipVertex().getIndex()]) += p.tEdge;
  } else {
    int k = 0;
    for (Vertex v : p.face.adjacentVertices()) r(o.vi[v.getIndex()]) += p.faceCoords[k++];
  }
  return r;
}
// straight distance from the point to the corners it is a combination of
static std::vector<std::pair<size_t, double>> cornerDist(const TriOracle& o, const SurfacePoint& p) {
  std::vector<std::pair<size_t, double>> r;
  if (p.type == SurfacePointType::Vertex)
    r.push_back({o.vi[p.vertex.getIndex()], 0.});
  else if (p.type == SurfacePointType::Edge) {
    double l = (double)o.L(p.edge);
    r.push_back({o.vi[p.edge.halfedge().tailVertex().getIndex()], p.tEdge * l});
    r.push_back({o.vi[p.edge.halfedge().tipVertex().getIndex()], (1 - p.tEdge) * l});
  } else {
    Halfedge h[3];
    LC q[3];
    corners(o, p.face, h, q);
    LC x = q[0] * (LD)p.faceCoords[0] + q[1] * (LD)p.faceCoords[1] + q[2] * (LD)p.faceCoords[2];
    for (int i = 0; i < 3; i++) r.push_back({o.vi[h[i].tailVertex().getIndex()], (double)std::abs(x - q[i])});
  }
  return r;
}

// ---------------------------------------------------------------- heat method for distance
static void heatDistance(G& g) {
  bool general = g.chance(.25);
  Inp I = genInp(g, general);
  SurfaceMesh& m = *I.w.mesh;
  TriOracle o = oracleOf(I);
  double tCoef = g.chance(.5) ? g.real(.5, 20) : 1;
  g.note("t=", tCoef);
  Ops A(o, false);
  MD H = A.M + tCoef * A.h * A.h * A.L;
  Eigen::LDLT<MD> chol(H);
  HeatMethodDistanceSolver solver(*I.geom, tCoef);
  bool del = delaunay(o, 1e-3);
  std::unique_ptr<HeatMethodDistanceSolver> robust;
  if (g.coin()) {
    robust.reset(new HeatMethodDistanceSolver(*I.geom, tCoef, true));
    g.label("robust");
  }
  int rounds = g.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    std::vector<SurfacePoint> S = genSources(g, m, 4);
    VertexData<double> D;
    bool allV = true;
    for (auto& p : S) allV &= p.type == SurfacePointType::Vertex;
    if (allV && g.coin()) {
      std::vector<Vertex> vs;
      for (auto& p : S) vs.push_back(p.vertex);
      D = vs.size() == 1 ? solver.computeDistance(vs[0]) : solver.computeDistance(vs);
      if (vs.size() == 1 && tCoef == 1) {
        VertexData<double> D2 = heatMethodDistance(*I.geom, vs[0]);
        for (Vertex v : m.vertices()) REQ_NEAR(g, D2[v], D[v], 1e-6 * A.h * m.nFaces(), "heatMethodDistance at " << v);
      }
    } else
      D = S.size() == 1 && g.coin() ? solver.computeDistance(S[0]) : solver.computeDistance(S);
    for (Vertex v : m.vertices()) REQ(g, std::isfinite(D[v]), "distance " << D[v] << " at " << v);

    // reference
    VD rhs = VD::Zero(m.nVertices());
    for (auto& p : S) rhs += weights(o, p);
    VD u = chol.solve(rhs);
    double top = u.cwiseAbs().maxCoeff();
    bool reliable = u.cwiseAbs().minCoeff() > 1e-9 * top;
    VD div = VD::Zero(m.nVertices());
    for (Face f : m.faces()) {
      Halfedge h[3];
      LC q[3];
      corners(o, f, h, q);
      LC gr = 0;
      LD sz = 0;
      for (int i = 0; i < 3; i++) { // gradient of the hat function of corner i: rotate the opposite edge
        LC e = q[(i + 2) % 3] - q[(i + 1) % 3];
        LC hat = LC(0, 1) * e / (2 * o.A(f));
        gr += hat * (LD)u(o.vi[h[i].tailVertex().getIndex()]);
        sz += std::abs(hat) * fabs(u(o.vi[h[i].tailVertex().getIndex()]));
      }
      if (std::abs(gr) < 1e-6 * sz) {
        reliable = false;
        continue;
      }
      LC X = -gr / std::abs(gr);
      for (int i = 0; i < 3; i++) { // integral of X . grad(hat)
        LC e = q[(i + 2) % 3] - q[(i + 1) % 3];
        LC hat = LC(0, 1) * e / 2.0L;
        div(o.vi[h[i].tailVertex().getIndex()]) += (double)(std::conj(X) * hat).real();
      }
    }
    double lam;
    VD d = poisson(A.L, div, lam);
    double sw = 0, sd = 0;
    for (auto& p : S) {
      VD w = weights(o, p);
      auto cd = cornerDist(o, p);
      for (auto& c : cd) { // one corner may be listed twice on a Delta-complex; these inputs are simplicial
        sd += w(c.first) * (d(c.first) - c.second);
        sw += w(c.first);
      }
    }
    d.array() -= sd / sw;
    double range = d.maxCoeff() - d.minCoeff() + A.h;
    // the documented normalisation holds whatever the field
    double rs = 0;
    for (auto& p : S) {
      VD w = weights(o, p);
      for (auto& c : cornerDist(o, p))
        for (Vertex v : m.vertices())
          if (o.vi[v.getIndex()] == c.first) rs += w(c.first) * (D[v] - c.second);
    }
    double dtol = 1e-7 * range + A.h * 1e-7;
    REQ(g, std::fabs(rs) <= dtol * (1 + S.size()), "the mean distance at the sources is off by " << rs);
    if (reliable) {
      double tol = range * (4e-6 * m.nVertices() / lam + 1e-5);
      g.label("compared");
      for (Vertex v : m.vertices())
        REQ_NEAR(g, D[v], d(o.vi[v.getIndex()]), tol, "heat distance at " << v << " (lambda " << lam << ")");
    }
    // sources in any order, other duplicates
    if (S.size() > 1 && reliable) {
      std::vector<SurfacePoint> R(S.rbegin(), S.rend());
      VertexData<double> D2 = solver.computeDistance(R);
      for (Vertex v : m.vertices()) REQ_NEAR(g, D2[v], D[v], 1e-5 * range, "sources in reverse order, at " << v);
    }
    if (robust) {
      VertexData<double> R = robust->computeDistance(S);
      double rr = 0;
      for (Vertex v : m.vertices()) REQ(g, std::isfinite(R[v]), "robust distance " << R[v] << " at " << v);
      for (auto& p : S) {
        VD w = weights(o, p);
        for (auto& c : cornerDist(o, p))
          for (Vertex v : m.vertices())
            if (o.vi[v.getIndex()] == c.first) rr += w(c.first) * (R[v] - c.second);
      }
      REQ(g, std::fabs(rr) <= dtol * (1 + S.size()), "robust: the mean distance at the sources is off by " << rr);
      if (del && m.usesImplicitTwin() && reliable) {
        g.label("robust = plain");
        double tol = range * (1e-3 + 1e-5 / lam);
        double minA = 1;
        for (Face f : m.faces())
          for (Halfedge h : f.adjacentHalfedges()) minA = std::min(minA, (double)o.ang[h.getIndex()]);
        if (minA > .3)
          for (Vertex v : m.vertices()) REQ_NEAR(g, R[v], D[v], tol, "robust distance on a Delaunay mesh at " << v);
      }
    }
  }
}

// ---------------------------------------------------------------- vector heat method
struct VH {
  Ops A;
  double t;
  Eigen::LDLT<MD> S;
  Eigen::FullPivLU<MC> V;
  VH(const TriOracle& o, double tCoef) : A(o, true), t(tCoef * A.h * A.h), S(A.M + t * A.L), V(A.M.cast<C>() + t * A.K) {}
};
static C cx(Vector2 v) { return C(v.x, v.y); }

static void checkTransport(G& g, const TriOracle& o, VH& H, VectorHeatMethodSolver& solver, const std::vector<SurfacePoint>& S,
                           const std::vector<Vector2>& X, bool allV) {
  SurfaceMesh& m = o.m;
  VertexData<Vector2> R;
  if (allV && S.size() == 1 && g.coin())
    R = solver.transportTangentVector(S[0].vertex, X[0]);
  else if (allV && g.coin()) {
    std::vector<std::tuple<Vertex, Vector2>> a;
    for (size_t i = 0; i < S.size(); i++) a.emplace_back(S[i].vertex, X[i]);
    R = solver.transportTangentVectors(a);
  } else {
    std::vector<std::tuple<SurfacePoint, Vector2>> a;
    for (size_t i = 0; i < S.size(); i++) a.emplace_back(S[i], X[i]);
    R = solver.transportTangentVectors(a);
  }
  VC rhs = VC::Zero(m.nVertices());
  VD num = VD::Zero(m.nVertices()), den = num;
  for (size_t i = 0; i < S.size(); i++) {
    VD w = weights(o, S[i]);
    rhs += w.cast<C>() * (cx(X[i]) / X[i].norm());
    num += w * X[i].norm();
    den += w;
  }
  VC y = H.V.solve(rhs);
  VD a = H.S.solve(num), b = H.S.solve(den);
  double top = y.cwiseAbs().maxCoeff(), topB = b.cwiseAbs().maxCoeff();
  for (Vertex v : m.vertices()) {
    size_t i = o.vi[v.getIndex()];
    if (std::abs(y(i)) < 1e-8 * top || std::fabs(b(i)) < 1e-8 * topB) continue;
    double mag = S.size() == 1 ? X[0].norm() : a(i) / b(i);
    C want = y(i) / std::abs(y(i)) * mag;
    REQ(g, std::abs(cx(R[v]) - want) <= 1e-6 * (std::fabs(mag) + X[0].norm() * 1e-3), "transported vector " << R[v] << " at " << v << ", expected " << want);
    g.label("transport compared");
  }
}

static void vectorHeat(G& g) {
  Inp I = genInp(g, false);
  SurfaceMesh& m = *I.w.mesh;
  TriOracle o = oracleOf(I);
  double tCoef = g.chance(.5) ? g.real(.5, 20) : 1;
  g.note("t=", tCoef);
  VH H(o, tCoef);
  VectorHeatMethodSolver solver(*I.geom, tCoef);
  int rounds = g.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    std::vector<SurfacePoint> S = genSources(g, m, 4);
    bool allV = true;
    for (auto& p : S) allV &= p.type == SurfacePointType::Vertex;
    std::vector<Vector2> X;
    std::vector<double> val;
    for (size_t i = 0; i < S.size(); i++) {
      X.push_back(Vector2::fromAngle(g.real(0, 6.28)) * std::pow(10., g.jitter(2)));
      val.push_back(g.chance(.2) ? 0 : g.jitter(5));
    }
    checkTransport(g, o, H, solver, S, X, allV);
    // scalars
    VertexData<double> E;
    if (allV && g.coin()) {
      std::vector<std::tuple<Vertex, double>> a;
      for (size_t i = 0; i < S.size(); i++) a.emplace_back(S[i].vertex, val[i]);
      E = solver.extendScalar(a);
    } else {
      std::vector<std::tuple<SurfacePoint, double>> a;
      for (size_t i = 0; i < S.size(); i++) a.emplace_back(S[i], val[i]);
      E = solver.extendScalar(a);
    }
    VD num = VD::Zero(m.nVertices()), den = num;
    double vm = 0;
    for (size_t i = 0; i < S.size(); i++) {
      VD w = weights(o, S[i]);
      num += w * val[i];
      den += w;
      vm = std::max(vm, std::fabs(val[i]));
    }
    VD a = H.S.solve(num), b = H.S.solve(den);
    double top = b.cwiseAbs().maxCoeff();
    bool pos = true;
    for (int i = 0; i < b.size(); i++) pos &= b(i) > 1e-8 * top;
    for (Vertex v : m.vertices()) {
      size_t i = o.vi[v.getIndex()];
      if (std::fabs(b(i)) < 1e-8 * top) continue;
      double amp = a.cwiseAbs().maxCoeff() / std::fabs(b(i));
      REQ_NEAR(g, E[v], a(i) / b(i), 1e-6 * (vm + 1e-6) + 1e-9 * amp, "extended scalar at " << v);
      if (S.size() == 1) REQ_NEAR(g, E[v], val[0], 1e-6 * (vm + 1e-6), "a constant is not extended as it is");
    }
    (void)pos;
  }
  // low-level solves
  VertexData<double> r(m);
  VertexData<C> rc(m);
  VD x(m.nVertices());
  VC xc(m.nVertices());
  for (Vertex v : m.vertices()) {
    r[v] = g.jitter(1), rc[v] = C(g.jitter(1), g.jitter(1));
    x(o.vi[v.getIndex()]) = r[v], xc(o.vi[v.getIndex()]) = rc[v];
  }
  VertexData<double> s = solver.scalarDiffuse(r);
  VertexData<C> sc = solver.vectorDiffuse(rc);
  VD y = H.S.solve(x);
  VC yc = H.V.solve(xc);
  for (Vertex v : m.vertices()) {
    size_t i = o.vi[v.getIndex()];
    REQ_NEAR(g, s[v], y(i), 1e-7 * y.cwiseAbs().maxCoeff(), "scalarDiffuse at " << v);
    REQ(g, std::abs(sc[v] - yc(i)) <= 1e-7 * yc.cwiseAbs().maxCoeff(), "vectorDiffuse at " << v << ": " << sc[v] << ", expected " << yc(i));
  }
  x.array() -= x.mean();
  for (Vertex v : m.vertices()) r[v] = x(o.vi[v.getIndex()]);
  VertexData<double> p = solver.poissonSolve(r);
  VD pv(m.nVertices());
  for (Vertex v : m.vertices()) pv(o.vi[v.getIndex()]) = p[v];
  double lam;
  VD pw = poisson(H.A.L, x, lam);
  pv.array() -= pv.mean();
  REQ(g, (pv - pw).cwiseAbs().maxCoeff() <= 1e-5 * pw.cwiseAbs().maxCoeff(), "poissonSolve (up to a constant): off by " << (pv - pw).cwiseAbs().maxCoeff());
  // no sources
  VertexData<double> e0 = solver.extendScalar(std::vector<std::tuple<Vertex, double>>{});
  VertexData<Vector2> t0 = solver.transportTangentVectors(std::vector<std::tuple<Vertex, Vector2>>{});
  for (Vertex v : m.vertices()) REQ(g, std::isnan(e0[v]) && !t0[v].isFinite(), "values from no sources at " << v);
}

// on a flat torus transport is that of the plane
static void flatTransport(G& g) {
  Inp I;
  makeFlatTorus(g, I);
  SurfaceMesh& m = *I.w.mesh;
  TriOracle o = oracleOf(I);
  VectorHeatMethodSolver solver(*I.geom, g.real(.5, 20));
  auto frame = [&](Vertex v) { C e = I.torusVec(v.halfedge()); return e / std::abs(e); };
  C dir = std::polar(1., g.real(0, 6.28));
  int k = g.range(1, 4);
  std::vector<std::tuple<Vertex, Vector2>> S;
  double mag = g.real(.1, 5);
  for (int i = 0; i < k; i++) {
    Vertex v = pickVertex(g, m);
    S.emplace_back(v, Vector2::fromComplex(mag * dir / frame(v)));
  }
  VertexData<Vector2> R = solver.transportTangentVectors(S);
  for (Vertex v : m.vertices())
    REQ(g, std::abs(cx(R[v]) * frame(v) - dir * mag) < 1e-6 * mag, "parallel transport of " << dir * mag << " on a flat torus gives " << cx(R[v]) * frame(v) << " at " << v);
}

// ---------------------------------------------------------------- logarithmic maps
static VertexData<Vector2> logOf(VectorHeatMethodSolver& s, Vertex v, int strat) {
  return s.computeLogMap(v, strat == 0 ? LogMapStrategy::VectorHeat : strat == 1 ? LogMapStrategy::AffineLocal : LogMapStrategy::AffineAdaptive);
}
static void logMaps(G& g) {
  Inp I = genInp(g, false);
  SurfaceMesh& m = *I.w.mesh;
  TriOracle o = oracleOf(I);
  double tCoef = g.chance(.5) ? g.real(1, 10) : 1;
  VH H(o, tCoef);
  VectorHeatMethodSolver solver(*I.geom, tCoef);
  size_t n = m.nVertices();
  Vertex src = pickVertex(g, m);
  g.note("t=", tCoef, " source ", src);
  VC one = VC::Zero(n);
  one(o.vi[src.getIndex()]) = 1;
  VC hz = H.V.solve(one);
  double top = hz.cwiseAbs().maxCoeff();
  bool rel = hz.cwiseAbs().minCoeff() > 1e-7 * top;
  for (int strat = 1; strat <= 2; strat++) {
    VertexData<Vector2> R = logOf(solver, src, strat);
    if (!rel) break;
    // affine operator in complex homogeneous coordinates, 3x3 real blocks
    MD B = MD::Zero(3 * n, 3 * n);
    for (size_t i = 0; i < n; i++)
      for (int p = 0; p < 3; p++) B(3 * i + p, 3 * i + p) += H.A.M(i, i);
    for (Face f : m.faces())
      for (Halfedge he : f.adjacentHalfedges()) {
        double w = H.t * (double)o.cot[he.getIndex()] / 2;
        for (int side = 0; side < 2; side++) {
          Halfedge h = side ? he.twin() : he;
          size_t i = o.vi[h.tailVertex().getIndex()], j = o.vi[h.tipVertex().getIndex()];
          LC e = o.vecInVertex(h), r = o.along(h.twin());
          C rot(r.real(), r.imag()), tr(-e.real(), -e.imag());
          if (strat == 2) {
            rot = 1;
            tr /= hz(i) / std::abs(hz(i));
          }
          MD T(3, 3);
          T << rot.real(), -rot.imag(), tr.real(), rot.imag(), rot.real(), tr.imag(), 0, 0, 1;
          for (int p = 0; p < 3; p++) {
            B(3 * i + p, 3 * i + p) += w;
            for (int q = 0; q < 3; q++) B(3 * i + p, 3 * j + q) -= w * T(p, q);
          }
        }
      }
    VD rhs = VD::Zero(3 * n);
    rhs(3 * o.vi[src.getIndex()] + 2) = 1;
    Eigen::FullPivLU<MD> lu(B);
    if (lu.rcond() < 1e-9) continue;
    VD y = lu.solve(rhs);
    double mx = 0;
    for (size_t i = 0; i < n; i++) mx = std::max(mx, std::fabs(y(3 * i + 2)));
    for (Vertex v : m.vertices()) {
      size_t i = o.vi[v.getIndex()];
      if (std::fabs(y(3 * i + 2)) < 1e-7 * mx) continue;
      C z = C(y(3 * i), y(3 * i + 1)) / y(3 * i + 2);
      if (strat == 1) z /= hz(i) / std::abs(hz(i));
      double amp = (y.cwiseAbs().maxCoeff() + mx * H.A.h) / std::fabs(y(3 * i + 2));
      REQ(g, std::abs(cx(R[v]) - z) <= 1e-6 * (std::abs(z) + H.A.h) + 1e-11 * amp / lu.rcond() * 0 + 1e-8 * amp,
          "log map (strategy " << strat << ") at " << v << ": " << R[v] << ", expected " << z);
      g.label("affine log compared");
    }
  }
  if (rel) { // integrate the radial field
    VertexData<Vector2> R = logOf(solver, src, 0);
    VC rb = VC::Zero(n);
    for (Halfedge h0 : src.outgoingHalfedges()) {
      if (!h0.isInterior()) continue;
      Halfedge h1 = h0.next(), h2 = h1.next();
      LD th = o.ang[h0.getIndex()], A2 = 2 * o.A(h0.face());
      LD hgt[3] = {A2 / o.L(h1.edge()), A2 / o.L(h2.edge()), A2 / o.L(h0.edge())}; // heights over the sides opposite to the corners
      LD alt = LPI / 2 - o.ang[h1.getIndex()];                                     // direction of the altitude from src
      LC I0 = 0, I1 = 0, I2 = 0;
      int N = 200;
      for (int k = 0; k <= N; k++) {
        LD a = th * k / N, w = th / N / 3 * (k == 0 || k == N ? 1 : k % 2 ? 4 : 2);
        LC r = std::polar(1.0L, a);
        I0 -= w * r * cosl(a - alt) / hgt[0];
        I1 += w * r * sinl(th - a) / hgt[1];
        I2 += w * r * sinl(a) / hgt[2];
      }
      auto un = [&](Halfedge h) { LC v = o.vecInVertex(h); return v / std::abs(v); };
      auto put = [&](Vertex v, LC z) { rb(o.vi[v.getIndex()]) += C(z.real(), z.imag()); };
      put(src, I0 * un(h0));
      put(h1.tailVertex(), I1 * -un(h0.twin()));
      put(h2.tailVertex(), I2 * std::polar(1.0L, -th) * -un(h2)); // the side from src to this corner points along angle th
    }
    VC rad = H.V.solve(rb);
    double mn = 1e300, mx = rad.cwiseAbs().maxCoeff();
    for (size_t i = 0; i < n; i++)
      if (i != o.vi[src.getIndex()]) mn = std::min(mn, std::abs(rad(i)));
    if (mn > 1e-6 * mx) {
      for (size_t i = 0; i < n; i++) rad(i) = i == o.vi[src.getIndex()] ? C(0) : rad(i) / std::abs(rad(i));
      VD div = VD::Zero(n);
      for (Face f : m.faces())
        for (Halfedge he : f.adjacentHalfedges())
          for (int side = 0; side < 2; side++) {
            Halfedge h = side ? he.twin() : he;
            size_t i = o.vi[h.tailVertex().getIndex()], j = o.vi[h.tipVertex().getIndex()];
            LC back = o.along(h.twin()), e = o.vecInVertex(h);
            C mid = .5 * (rad(i) + C(back.real(), back.imag()) * rad(j)), ee(e.real(), e.imag());
            div(i) -= (double)o.cot[he.getIndex()] / 2 * std::real(std::conj(mid) * ee);
          }
      double lam;
      VD d = poisson(H.A.L, div, lam);
      d.array() -= d(o.vi[src.getIndex()]);
      double range = d.cwiseAbs().maxCoeff() + H.A.h;
      for (Vertex v : m.vertices()) {
        size_t i = o.vi[v.getIndex()];
        C z = rad(i) / (hz(i) / std::abs(hz(i))) * d(i);
        REQ(g, std::abs(cx(R[v]) - z) <= range * (4e-6 * n / lam + 1e-5), "log map (vector heat) at " << v << ": " << R[v] << ", expected " << z << " (lambda " << lam << ")");
      }
      g.label("log compared");
    }
  }
  // points in edges and faces blend the maps of the corners
  int strat = g.range(0, 2);
  SurfacePoint p = genPoint(g, m);
  g.note("point ", p, " strategy ", strat);
  VertexData<Vector2> R = solver.computeLogMap(p, strat == 0 ? LogMapStrategy::VectorHeat : strat == 1 ? LogMapStrategy::AffineLocal : LogMapStrategy::AffineAdaptive);
  VC want = VC::Zero(n);
  double sz = 0;
  auto addTo = [&](Vertex v, C f) {
    VertexData<Vector2> l = logOf(solver, v, strat);
    for (Vertex u : m.vertices()) want(o.vi[u.getIndex()]) += f * cx(l[u]), sz = std::max(sz, std::abs(f * cx(l[u])));
  };
  auto c = [](LC z) { z /= std::abs(z); return C(z.real(), z.imag()); };
  if (p.type == SurfacePointType::Vertex)
    addTo(p.vertex, 1);
  else if (p.type == SurfacePointType::Edge) {
    Halfedge h = p.edge.halfedge();
    addTo(h.tailVertex(), (1 - p.tEdge) / c(o.vecInVertex(h)));
    addTo(h.tipVertex(), p.tEdge / c(-o.vecInVertex(h.twin())));
  } else {
    int k = 0;
    for (Halfedge h : p.face.adjacentHalfedges()) addTo(h.tailVertex(), p.faceCoords[k++] * c(o.vecInFace(h) / o.vecInVertex(h)));
  }
  for (Vertex v : m.vertices()) {
    C z = want(o.vi[v.getIndex()]);
    if (!std::isfinite(z.real())) continue;
    REQ(g, std::abs(cx(R[v]) - z) <= 1e-6 * (sz + H.A.h), "log map of a point at " << v << ": " << R[v] << ", expected " << z);
  }
}

// on a flat torus, near the source, the logarithm is the planar offset (up to discretisation)
static void flatLog(G& g) {
  Inp I;
  makeFlatTorus(g, I, 6, 8);
  SurfaceMesh& m = *I.w.mesh;
  VectorHeatMethodSolver solver(*I.geom, 1);
  Vertex s = pickVertex(g, m);
  C e = I.torusVec(s.halfedge());
  C fr = e / std::abs(e);
  double h = 0;
  for (Edge x : m.edges()) h += std::abs(I.torusVec(x.halfedge())) / m.nEdges();
  for (int strat = 0; strat < 3; strat++) {
    VertexData<Vector2> R = logOf(solver, s, strat);
    for (Halfedge a : s.outgoingHalfedges()) {
      C z = cx(R[a.tipVertex()]) * fr, t = I.torusVec(a);
      if (std::abs(t) > 1.3 * h) continue;
      REQ(g, std::abs(z - t) < 1.5 * h, "log map on a flat torus (strategy " << strat << ") gives " << z << " for the neighbour " << a.tipVertex() << " at " << t << " (mean edge " << h << ")");
      REQ(g, std::fabs(std::arg(z / t)) < .8, "log map on a flat torus (strategy " << strat << ") gives " << z << " for the neighbour at " << t);
    }
  }
}

// ---------------------------------------------------------------- polygon meshes
static void polygonHeat(G& g) {
  Geo w = genPolyGeo(g, g.chance(.2), false, 3, 30);
  if (w.man && g.chance(.5)) { // gaps in the indices: merge the faces around some of the first vertices
    std::vector<Vertex> old;
    for (Vertex v : w.man->vertices()) old.push_back(v);
    int k = g.range(1, 3);
    bool gap = false;
    for (int i = 0; i < k; i++) {
      Face f = pickFace(g, *w.man);
      Vector3 c = Vector3::zero();
      for (Vertex v : f.adjacentVertices()) c += w.pos[v] / f.degree();
      Vertex v = w.man->insertVertex(f);
      w.pos[v] = c;
      Vertex r = old[g.below(old.size())];
      if (!r.isDead() && !r.isBoundary() && r.degree() <= 6 && w.man->removeVertex(r) != Face()) gap = true;
    }
    needFaces(g, w);
    w.vpg.reset(new VertexPositionGeometry(*w.mesh, w.pos));
    if (gap) g.label("index gaps");
  }
  SurfaceMesh& m = *w.mesh;
  if (!connected(m)) g.discard();
  needFrames(g, w);
  size_t n = m.nVertices(), nF = m.nFaces();
  if (n > 60) g.discard();
  VertexPositionGeometry& geo = *w.vpg;
  double tCoef = g.chance(.5) ? g.real(.5, 20) : 1;
  PolygonMeshHeatSolver solver(geo, tCoef);
  geo.requirePolygonLaplacian();
  geo.requirePolygonVertexLumpedMassMatrix();
  geo.requirePolygonGradientMatrix();
  geo.requirePolygonDivergenceMatrix();
  geo.requirePolygonVertexConnectionLaplacian();
  geo.requireVertexTangentBasis();
  geo.requireVertexNormals();
  MD L(geo.polygonLaplacian), M(geo.polygonVertexLumpedMassMatrix), Gr(geo.polygonGradientMatrix), Dv(geo.polygonDivergenceMatrix);
  MC K(geo.polygonVertexConnectionLaplacian);
  double h = 0;
  for (Edge e : m.edges()) h += norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]) / m.nEdges();
  double t = tCoef * h * h;
  Eigen::LDLT<MD> S(M + t * L);
  Eigen::FullPivLU<MC> V(M.cast<C>() + t * K);
  std::map<size_t, size_t> vi, fi;
  {
    size_t k = 0;
    for (Vertex v : m.vertices()) vi[v.getIndex()] = k++;
    k = 0;
    for (Face f : m.faces()) fi[f.getIndex()] = k++;
  }
  auto ix = [&](Vertex v) { return vi[v.getIndex()]; };
  int rounds = g.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    std::vector<Vertex> src;
    int cnt = g.range(1, 4);
    for (int i = 0; i < cnt; i++) {
      Vertex v = pickVertex(g, m);
      if (std::find(src.begin(), src.end(), v) == src.end()) src.push_back(v);
    }
    g.note(src.size(), " sources, first ", src[0]);
    VD rhs = VD::Zero(n);
    for (Vertex v : src) rhs(ix(v)) += 1;
    VD u = S.solve(rhs);
    double top = u.cwiseAbs().maxCoeff();
    bool rel = u.cwiseAbs().minCoeff() > 1e-8 * top;
    VD Y = Gr * u;
    double gm = 0;
    for (size_t i = 0; i < nF; i++) gm = std::max(gm, Y.segment<3>(3 * i).norm());
    for (size_t i = 0; i < nF; i++) {
      double nr = Y.segment<3>(3 * i).norm(), row = (Gr.middleRows(3 * i, 3).cwiseAbs() * u.cwiseAbs()).norm();
      if (nr < 1e-6 * row) rel = false;
      if (nr > 0) Y.segment<3>(3 * i) /= nr;
    }
    VertexData<double> D = src.size() == 1 && g.coin() ? solver.computeDistance(src[0]) : solver.computeDistance(src);
    double mn = 1e300;
    for (Vertex v : m.vertices()) {
      REQ(g, std::isfinite(D[v]), "polygon heat distance " << D[v] << " at " << v);
      mn = std::min(mn, D[v]);
    }
    double lam;
    VD d = poisson(L, -(Dv * Y), lam);
    d.array() -= d.minCoeff();
    double range = d.maxCoeff() + h;
    REQ(g, std::fabs(mn) <= 1e-9 * range, "the smallest distance is " << mn);
    if (rel) {
      g.label("distance compared");
      for (Vertex v : m.vertices()) REQ_NEAR(g, D[v], d(ix(v)), range * (4e-6 * n / lam + 1e-5), "polygon heat distance at " << v << " (lambda " << lam << ")");
    }
    // scalars
    std::vector<std::tuple<Vertex, double>> sc;
    std::vector<std::tuple<Vertex, Vector2>> sv;
    VD num = VD::Zero(n), mg_ = num;
    VC dir = VC::Zero(n);
    bool same = g.coin();
    double mag = std::pow(10., g.jitter(2)), vm = 0;
    for (Vertex v : src) {
      double val = g.jitter(5);
      sc.emplace_back(v, val);
      num(ix(v)) = val;
      vm = std::max(vm, std::fabs(val));
      Vector2 X = Vector2::fromAngle(g.real(0, 6.28)) * (same ? mag : mag * g.real(.3, 3));
      sv.emplace_back(v, X);
      mg_(ix(v)) = X.norm();
      dir(ix(v)) = cx(X);
    }
    VertexData<double> E = solver.extendScalars(sc);
    VD a = S.solve(num), mm = S.solve(mg_);
    for (Vertex v : m.vertices()) {
      if (std::fabs(u(ix(v))) < 1e-8 * top) continue;
      double amp = a.cwiseAbs().maxCoeff() / std::fabs(u(ix(v)));
      REQ_NEAR(g, E[v], a(ix(v)) / u(ix(v)), 1e-6 * (vm + 1e-6) + 1e-9 * amp, "extendScalars at " << v);
    }
    // vectors
    VertexData<Vector2> R = sv.size() == 1 && g.coin() ? solver.transportTangentVector(src[0], std::get<1>(sv[0])) : solver.transportTangentVectors(sv);
    VC y = V.solve(dir);
    double ty = y.cwiseAbs().maxCoeff();
    for (Vertex v : m.vertices()) {
      size_t i = ix(v);
      if (std::abs(y(i)) < 1e-7 * ty || std::fabs(u(i)) < 1e-8 * top) continue;
      double amp = mm.cwiseAbs().maxCoeff() / std::fabs(u(i));
      C want = y(i) / std::abs(y(i)) * (mm(i) / u(i));
      REQ(g, std::abs(cx(R[v]) - want) <= 1e-6 * std::abs(want) + 1e-9 * amp + 1e-12 * mag, "transported vector " << R[v] << " at " << v << ", expected " << want);
      g.label("transport compared");
    }
  }
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs{
      {"C19",
       "a mesh of more than 4 faces",
       {{"distance", heatDistance, 6000, 120000, 30},
        {"vector heat", vectorHeat, 4000, 80000, 30},
        {"flat transport", flatTransport, 300, 10000, 30},
        {"flat log", flatLog, 300, 10000, 30},
        {"polygons", polygonHeat, 4000, 60000, 30},
        {"log maps", logMaps, 2500, 60000, 30}},
       {"meshes are connected; triangles have angles of at least 0.2 rad", "values are compared where the heat has not decayed below 1e-7 of its maximum and the gradient of the heat does not vanish",
        "robust distances equal plain ones on Delaunay meshes; on other meshes only their normalisation is checked"}},
  };
  return pbt::run(argc, argv, specs);
}
