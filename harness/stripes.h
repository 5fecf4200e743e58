// stripe patterns: values at corners, indices, level sets
static VertexData<Vector2> lineField(G& g, Geo& w) {
  VertexData<Vector2> d(*w.mesh);
  double spread = g.pick(std::vector<double>{.3, 1., 3.});
  for (Vertex v : w.mesh->vertices()) d[v] = Vector2::fromAngle(g.jitter(spread));
  if (g.coin()) {
    d = computeSmoothestVertexDirectionField(*w.vpg, 2);
    for (Vertex v : w.mesh->vertices())
      if (!isfinite(d[v])) g.discard();
  }
  return d;
}
static VertexData<double> frequencies(G& g, Geo& w) {
  VertexData<double> f(*w.mesh);
  double f0 = g.real(.1, 3);
  bool constant = g.coin();
  for (Vertex v : w.mesh->vertices()) f[v] = constant ? f0 : f0 * g.real(.3, 1.5);
  return f;
}

static void stripes(G& g) {
  Geo w = genMesh(g, 40);
  TriOracle o = oracleOf(*w.mesh, w.pos);
  VertexData<Vector2> d = lineField(g, w);
  VertexData<double> fr = frequencies(g, w);
  SurfaceMesh& m = *w.mesh;
  // roots that nearly oppose each other, or fields whose index is in doubt, are not decided
  for (Halfedge h : m.halfedges()) {
    C a = toC(o.along(h)) * std::polar(1., d[h.tailVertex()].arg() / 2), b = std::polar(1., d[h.tipVertex()].arg() / 2);
    if (std::fabs((a * std::conj(b)).real()) < 1e-6) g.discard();
  }
  Own own;
  IntrinsicGeometryInterface& geo = own.of(g, w);
  CornerData<double> val;
  FaceData<int> zero, branch;
  std::tie(val, zero, branch) = computeStripePattern(geo, fr, d);
  FaceData<int> ix = computeFaceIndex(geo, d, 2);
  VertexData<double> phase(m, NAN);
  for (Face f : m.faces()) {
    REQ(g, branch[f] == ix[f], "index of the line field in face " << f);
    for (Corner c : f.adjacentCorners()) REQ(g, std::isfinite(val[c]), "value at a corner");
    if (ix[f]) {
      g.label("branch");
      continue;
    }
    // one consistent sheet in the face, starting from the root at its first corner
    Halfedge h0 = f.halfedge(), h = h0;
    std::vector<Halfedge> hs;
    for (Halfedge x : f.adjacentHalfedges()) hs.push_back(x);
    double s[4] = {1, 1, 1, 1};
    C X[4];
    X[0] = std::polar(1., d[h0.vertex()].arg() / 2);
    for (int k = 1; k <= 3; k++) {
      Vertex v = hs[k % 3].vertex();
      C root = std::polar(1., d[v].arg() / 2);
      C t = toC(o.along(hs[k - 1])) * X[k - 1];
      s[k] = (t * std::conj(root)).real() > 0 ? 1 : -1;
      X[k] = s[k] * root;
    }
    REQ(g, s[3] > 0, "oracle");
    g.nontrivial();
    double lift = 0;
    for (int k = 0; k < 3; k++) {
      Halfedge x = hs[k];
      // value belongs to the phase of its vertex
      double p = wrap(s[k] * val[x.corner()]);
      if (std::isnan(phase[x.vertex()])) phase[x.vertex()] = p;
      REQ_NEAR(g, std::fabs(wrap(p - phase[x.vertex()])), 0, 1e-6, "value at " << x.corner() << " modulo a period");
      // the difference along the side is within half a period of the line integral of the field
      auto along = [&](int c, Halfedge y) {
        C e = toC(o.vecInVertex(y));
        return (X[c] * std::conj(e / std::abs(e))).real() * TAU * fr[y.vertex()];
      };
      double om = (double)o.L(x.edge()) / 2 * (along(k, x) + (along(k + 1, x.twin()) * -1.));
      double end = val[x.next().corner()] + (k == 2 ? TAU * zero[f] : 0);
      double dv = end - val[x.corner()];
      REQ(g, std::fabs(dv - om) <= M_PI + 1e-6, "difference " << dv << " along a side of face " << f << " for a line integral of " << om);
      lift += dv;
    }
    REQ_NEAR(g, lift, TAU * zero[f], 1e-6, "differences around face " << f);
    if (zero[f]) g.label("stripe singularity");
  }
}

// exact plane waves on flat tori
static void planeWaves(G& g) {
  int nx = g.range(3, 6), ny = g.range(3, 6);
  double px = g.real(.7, 1.4) * nx, shear = g.jitter(.3) * nx, py = ny;
  std::vector<C> P;
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) P.push_back(C(px * (i + g.jitter(.15)) / nx, 0) + C(shear, py) * ((j + g.jitter(.15)) / ny));
  auto id = [&](int i, int j) { return (size_t)((j % ny) * nx + i % nx); };
  std::vector<std::vector<size_t>> T;
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) {
      size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), e = id(i, j + 1);
      if (g.coin())
        T.push_back({a, b, c}), T.push_back({a, c, e});
      else
        T.push_back({a, b, e}), T.push_back({b, c, e});
    }
  ManifoldSurfaceMesh m(T);
  auto vec = [&](Halfedge h) {
    C d = P[h.tipVertex().getIndex()] - P[h.tailVertex().getIndex()], best = d;
    for (int x = -2; x <= 2; x++)
      for (int y = -1; y <= 1; y++)
        if (std::abs(d + px * x + C(shear, py) * (double)y) < std::abs(best)) best = d + px * x + C(shear, py) * (double)y;
    return best;
  };
  EdgeData<double> L(m);
  for (Edge e : m.edges()) L[e] = std::abs(vec(e.halfedge()));
  for (Face f : m.faces()) {
    C s = 0, a = vec(f.halfedge()), b = vec(f.halfedge().next());
    for (Halfedge h : f.adjacentHalfedges()) s += vec(h);
    if (std::abs(s) > 1e-9 || (std::conj(a) * b).imag() < .15 * std::abs(a) * std::abs(b)) g.discard();
  }
  EdgeLengthGeometry geo(m, L);
  geo.requireHalfedgeVectorsInVertex();
  int ka = g.range(-2, 2), kb = g.range(-2, 2);
  double kx = TAU * ka / px, ky = (TAU * kb - kx * shear) / py;
  C k(kx, ky);
  g.note("periods", ka, " ", kb);
  if (std::abs(k) < 1e-9) g.discard();
  // the direction of the wave as a line field in every tangent basis
  VertexData<Vector2> d(m);
  for (Vertex v : m.vertices()) {
    Halfedge h = v.halfedge();
    Vector2 e = geo.halfedgeVectorsInVertex[h];
    C rot = C(e.x, e.y) / vec(h);
    C x = k / std::abs(k) * rot;
    d[v] = Vector2::fromComplex(x * x);
  }
  // the other eigenvalues of the operator must be away from zero: it is the cotan Laplacian of the torus
  g.nontrivial();
  VertexData<double> fr(m, std::abs(k) / TAU);
  CornerData<double> val;
  FaceData<int> zero, branch;
  std::tie(val, zero, branch) = computeStripePattern(geo, fr, d);
  for (Halfedge h : m.halfedges()) {
    double dot = (k * std::conj(vec(h))).real();
    // a wave may change by more than half a period along a side: the values still follow the line integral
    double sign = 0;
    (void)sign;
    double dv = val[h.next().corner()] - val[h.corner()];
    REQ_NEAR(g, std::fabs(dv), std::fabs(dot), 1e-5, "difference of a plane wave along a side");
  }
  for (Face f : m.faces()) {
    REQ(g, zero[f] == 0 && branch[f] == 0, "singularity in a plane wave");
    // all sides of a face on the same sheet
    double c = 0;
    for (Halfedge h : f.adjacentHalfedges()) {
      double dot = (k * std::conj(vec(h))).real(), dv = val[h.next().corner()] - val[h.corner()];
      if (std::fabs(dot) < 1e-3) continue;
      double s = dv * dot > 0 ? 1 : -1;
      REQ(g, c == 0 || c == s, "sides of face " << f << " on different sheets");
      c = s;
    }
  }
}

static void polylines(G& g) {
  Geo w = genMesh(g, 40);
  SurfaceMesh& m = *w.mesh;
  VertexData<Vector2> d = lineField(g, w);
  VertexData<double> fr = frequencies(g, w);
  CornerData<double> val;
  FaceData<int> zero, branch;
  std::tie(val, zero, branch) = computeStripePattern(*w.vpg, fr, d);
  for (Corner c : m.corners()) {
    REQ(g, std::isfinite(val[c]), "value at a corner");
    if (std::fabs(wrap(val[c])) < 1e-6) g.discard(); // a level set through a vertex
  }
  bool connect = g.coin();
  std::vector<Vector3> pts;
  std::vector<std::array<size_t, 2>> seg;
  if (g.coin())
    std::tie(pts, seg) = extractPolylinesFromStripePattern(*w.vpg, val, zero, branch, d, connect);
  else {
    // (the pattern is determined up to a phase)
    std::tie(pts, seg) = computeStripePatternPolylines(*w.vpg, fr, d, connect);
    for (auto& s : seg) REQ(g, s[0] < pts.size() && s[1] < pts.size() && s[0] != s[1], "segment of the stripes");
    for (Vector3 p : pts) REQ(g, isfinite(p), "point of the stripes");
    return;
  }
  double tol = 1e-7;
  auto key = [&](Vector3 a, Vector3 b) { return std::make_pair(a, b); };
  std::vector<std::pair<Vector3, Vector3>> want;
  size_t extra = 0;
  std::vector<size_t> pairsOf;
  for (Face f : m.faces()) {
    if (zero[f] || branch[f]) {
      if (connect && zero[f] && !branch[f]) {
        // all true crossings of its sides, less one per unit of the index, in pairs
        int tot = 0;
        for (Halfedge h : f.adjacentHalfedges()) {
          double a = val[h.corner()] / TAU, b = val[h.next().corner()] / TAU + (h.next() == f.halfedge() ? zero[f] : 0);
          tot += std::abs((int)(std::floor(a) - std::floor(b)));
        }
        REQ(g, (tot - std::abs(zero[f])) % 2 == 0, "oracle");
        extra += (tot - std::abs(zero[f])) / 2;
        g.label("connected singularity");
      }
      continue;
    }
    double lo = INFINITY, hi = -INFINITY;
    for (Corner c : f.adjacentCorners()) lo = std::min(lo, val[c]), hi = std::max(hi, val[c]);
    for (int k = (int)std::ceil(lo / TAU); k * TAU < hi; k++) {
      std::vector<Vector3> ends;
      for (Halfedge h : f.adjacentHalfedges()) {
        double a = val[h.corner()] - k * TAU, b = val[h.next().corner()] - k * TAU;
        if ((a > 0) == (b > 0)) continue;
        double t = a / (a - b);
        ends.push_back(w.pos[h.tailVertex()] * (1 - t) + w.pos[h.tipVertex()] * t);
      }
      REQ(g, ends.size() == 2, "oracle");
      want.push_back(key(ends[0], ends[1]));
      g.nontrivial();
    }
  }
  REQ(g, seg.size() == want.size() + extra, seg.size() << " segments for " << want.size() << " level sets of faces and " << extra << " at singularities");
  std::vector<char> used(seg.size(), 0);
  for (auto& q : want) {
    bool found = false;
    for (size_t i = 0; i < seg.size() && !found; i++) {
      if (used[i]) continue;
      REQ(g, seg[i][0] < pts.size() && seg[i][1] < pts.size(), "end of a segment");
      Vector3 a = pts[seg[i][0]], b = pts[seg[i][1]];
      if ((norm(a - q.first) < tol && norm(b - q.second) < tol) || (norm(b - q.first) < tol && norm(a - q.second) < tol)) found = true, used[i] = 1;
    }
    REQ(g, found, "no segment from " << q.first << " to " << q.second);
  }
  // stripes do not branch: no point is used more than twice, and consecutive pieces share their points
  std::vector<int> deg(pts.size(), 0);
  for (auto& s : seg) deg[s[0]]++, deg[s[1]]++;
  for (size_t i = 0; i < pts.size(); i++) REQ(g, deg[i] <= 2, "point " << i << " is on " << deg[i] << " segments");
  for (size_t i = 0; i < pts.size(); i++)
    for (size_t j = 0; j < i; j++)
      if (norm(pts[i] - pts[j]) < 1e-12) REQ(g, false, "points " << i << " and " << j << " are the same crossing twice");
}
