// signed distance to curves on point clouds
static void signedDistances(G& g) {
  HS s;
  makeHS(g, s);
  connection(g, s);
  PointPositionGeometry& q = *s.o.geom;
  SurfaceMesh& m = *q.tuftedMesh;
  size_t n = s.o.in.P.size();
  q.requireTangentBasis();
  TriOracle to(m, [&](Edge e) { return (LD)q.tuftedGeom->edgeLengths[e]; });
  // orientation of the cloud: the normals up to sign, or anything
  PointData<Vector3> nn(*s.o.cloud);
  for (size_t i = 0; i < n; i++) {
    Vector3 N = q.normals[i];
    Vector3 ref = s.o.in.planar ? q.normals[0] : s.o.in.P[i];
    nn[i] = (dot(N, ref) < 0 ? -N : N) * g.real(.5, 2);
  }
  std::vector<size_t> p = g.perm(n);
  std::vector<std::vector<size_t>> cs;
  size_t at = 0;
  int k = g.range(1, 2);
  for (int c = 0; c < k; c++) {
    std::vector<size_t> v;
    int len = g.range(2, 5);
    for (int i = 0; i < len; i++) v.push_back(p[at++]);
    if (len > 2 && g.coin()) v.push_back(v[0]), g.label("closed");
    cs.push_back(v);
    g.note("curve", [&] {
      std::string r;
      for (size_t i : v) r += " " + std::to_string(i);
      return r;
    }());
  }
  SignedHeatOptions opt;
  opt.preserveSourceNormals = g.chance(.3);
  int lc = g.below(3);
  opt.levelSetConstraint = lc == 0 ? LevelSetConstraint::None : lc == 1 ? LevelSetConstraint::ZeroSet : LevelSetConstraint::Multiple;
  bool soft = g.chance(.3);
  if (soft) opt.softLevelSetWeight = g.real(.5, 50);
  g.note(lc == 0 ? "no constraint" : lc == 1 ? "zero set" : "level sets", soft ? " soft " : "", opt.softLevelSetWeight, opt.preserveSourceNormals ? " preserving normals" : "");
  g.label(lc == 0 ? "none" : lc == 1 ? (soft ? "soft zero set" : "zero set") : soft ? "soft level sets" : "level sets");
  auto curvesOf = [&](bool rev) {
    std::vector<std::vector<Point>> r;
    for (auto& c : cs) {
      std::vector<Point> x;
      for (size_t i : c) x.push_back(s.o.cloud->point(i));
      if (rev) std::reverse(x.begin(), x.end());
      r.push_back(x);
    }
    return r;
  };
  // reference
  VD X0 = VD::Zero(2 * n);
  std::map<size_t, Vector2> tang;
  double maxSeg = 0;
  for (auto& c : cs)
    for (size_t i = 0; i + 1 < c.size(); i++) {
      Vector3 seg = (s.o.in.P[c[i + 1]] - s.o.in.P[c[i]]) / 2;
      maxSeg = std::max(maxSeg, seg.norm());
      for (size_t v : {c[i], c[i + 1]}) {
        Vector2 t = in2(q.tangentBasis[v], seg);
        Vector2 w = in2(q.tangentBasis[v], cross(nn[v].normalize(), out3(q.tangentBasis[v], t)));
        X0(2 * v) += w.x, X0(2 * v + 1) += w.y;
        tang[v] += t;
      }
    }
  for (auto& t : tang)
    if (t.second.norm() < .02 * maxSeg) g.discard(); // the curve has no direction there
  MD V = twice(s.M) + s.t * s.K;
  VD X;
  if (opt.preserveSourceNormals) {
    size_t c = tang.size(), r = 0;
    MD A = MD::Zero(2 * n + c, 2 * n + c);
    A.topLeftCorner(2 * n, 2 * n) = V;
    for (auto& t : tang) {
      A(2 * n + r, 2 * t.first) = A(2 * t.first, 2 * n + r) = t.second.x;
      A(2 * n + r, 2 * t.first + 1) = A(2 * t.first + 1, 2 * n + r) = t.second.y;
      r++;
    }
    VD b = VD::Zero(2 * n + c);
    b.head(2 * n) = X0;
    X = A.fullPivLu().solve(b).head(2 * n);
  } else
    X = V.fullPivLu().solve(X0);
  double topX = X.cwiseAbs().maxCoeff();
  VD div = VD::Zero(n);
  for (Face f : m.faces()) {
    Vector3 gr{0, 0, 0};
    for (Vertex v : f.adjacentVertices()) gr += out3(q.tangentBasis[v.getIndex()], Vector2{X(2 * v.getIndex()), X(2 * v.getIndex() + 1)});
    if (gr.norm() < 1e-6 * topX) g.discard();
    gr = gr.normalize();
    for (Halfedge h : f.adjacentHalfedges()) {
      size_t a = h.tailVertex().getIndex(), b = h.tipVertex().getIndex();
      double v = (double)to.cot[h.getIndex()] / 2 * dot(s.o.in.P[b] - s.o.in.P[a], gr);
      div(a) += v, div(b) -= v;
    }
  }
  double lam;
  poisson(s.L, div, lam);
  if (lam < 1e-3) g.discard();
  std::vector<size_t> nodes;
  for (auto& t : tang) nodes.push_back(t.first);
  VD ref;
  if (lc == 0) ref = poisson(s.L, div, lam);
  else if (lc == 1 && !soft) {
    MD A = s.L;
    VD b = div;
    for (size_t v : nodes) {
      A.row(v).setZero();
      A(v, v) = 1;
      b(v) = 0;
    }
    ref = A.fullPivLu().solve(b);
  } else if (lc == 1) {
    MD A = s.L;
    for (size_t v : nodes) A(v, v) += opt.softLevelSetWeight;
    ref = A.fullPivLu().solve(div);
  } else {
    size_t c = 0;
    for (auto& x : cs) c += std::set<size_t>(x.begin(), x.end()).size() - 1;
    MD A = MD::Zero(c, n);
    size_t r = 0;
    for (auto& x : cs) {
      std::set<size_t> ss(x.begin() + 1, x.end());
      ss.erase(x[0]);
      for (size_t v : ss) A(r, v) = -1, A(r, x[0]) = 1, r++;
    }
    MD S = MD::Zero(n + c + 1, n + c + 1);
    VD b = VD::Zero(n + c + 1);
    b.head(n) = div;
    if (soft) {
      S.topLeftCorner(n, n) = s.L + opt.softLevelSetWeight * A.transpose() * A;
      for (size_t i = 0; i < c; i++) S(n + i, n + i) = 1;
    } else {
      S.topLeftCorner(n, n) = s.L;
      S.block(n, 0, c, n) = A;
      S.block(0, n, n, c) = A.transpose();
    }
    for (size_t i = 0; i < n; i++) S(n + c, i) = S(i, n + c) = 1; // zero mean
    ref = S.fullPivLu().solve(b).head(n);
  }
  auto average = [&](auto&& phi) {
    double a = 0, l = 0;
    for (auto& c : cs)
      for (size_t i = 0; i + 1 < c.size(); i++) {
        double d = (s.o.in.P[c[i + 1]] - s.o.in.P[c[i]]).norm();
        a += d * (phi(c[i]) + phi(c[i + 1])) / 2, l += d;
      }
    return a / l;
  };
  double range = ref.maxCoeff() - ref.minCoeff() + s.h;
  double tol = range * (1e-4 + 2e-5 * n / lam);
  PointData<double> D = s.solver->computeSignedDistance(curvesOf(false), nn, opt);
  for (size_t i = 0; i < n; i++) REQ(g, std::isfinite(D[i]), "signed distance of " << i);
  double avg = average([&](size_t i) { return D[i]; }), ravg = average([&](size_t i) { return ref(i); });
  if (lc != 1) REQ_NEAR(g, avg, 0, 1e-5 * range, "average signed distance along the curves");
  if (lc != 1) ref.array() -= ravg;
  for (size_t i = 0; i < n; i++) REQ_NEAR(g, D[i], ref(i), tol, "signed distance of " << i << " (lambda " << lam << ")");
  if (lc == 1 && !soft)
    for (size_t v : nodes) REQ_NEAR(g, D[v], 0, 1e-9 * range, "signed distance of " << v << " on a curve");
  if (lc == 2 && !soft)
    for (auto& c : cs)
      for (size_t v : c) REQ_NEAR(g, D[v], D[c[0]], 1e-5 * range, "signed distance of " << v << " on the curve of " << c[0]);
  g.label("compared");
  // reversing the curves negates the distance (soft level sets are tied to the first point of each curve)
  if (lc == 2 && soft) return;
  PointData<double> R = s.solver->computeSignedDistance(curvesOf(true), nn, opt);
  for (size_t i = 0; i < n; i++) REQ_NEAR(g, R[i], -D[i], tol, "signed distance of " << i << " to the reversed curves");
}
