// C03 manifold mutations, C04 general mutations, C05 containers, C06 copies
#include "mutate.h"
#include "pbt_main.h"

using namespace mg;

// ---- compress, judged by labels
template <typename E>
struct Labels {};

static void compressChecked(G& g, SurfaceMesh& m, const std::string& w0) {
  std::string when = w0 + " compress()";
  VertexData<size_t> vl(m);
  EdgeData<size_t> el(m);
  FaceData<size_t> fl(m);
  HalfedgeData<size_t> hl(m);
  CornerData<size_t> cl(m);
  BoundaryLoopData<size_t> bl(m);
  for (Vertex v : m.vertices()) vl[v] = v.getIndex();
  for (Edge e : m.edges()) el[e] = e.getIndex();
  for (Face f : m.faces()) fl[f] = f.getIndex();
  for (Halfedge h : m.halfedges()) hl[h] = h.getIndex();
  for (Corner c : m.corners()) cl[c] = c.halfedge().getIndex();
  Model a = snap(m);
  std::map<size_t, size_t> vHe, eHe;
  std::map<size_t, bool> fHe;
  for (Vertex v : m.vertices()) vHe[v.getIndex()] = v.halfedge().getIndex();
  for (Edge e : m.edges()) eHe[e.getIndex()] = e.halfedge().getIndex();
  std::map<size_t, size_t> loopOf;
  for (BoundaryLoop b : m.boundaryLoops()) {
    bl[b] = b.getIndex();
    for (Halfedge h : b.adjacentHalfedges()) loopOf[h.getIndex()] = b.getIndex();
  }
  m.compress();
  g.note("compress");
  REQ(g, m.isCompressed(), when << ": isCompressed()");
  REQ(g, m.vertexIndexSize() == m.nVertices() && m.edgeIndexSize() == m.nEdges() && m.faceIndexSize() == m.nFaces() &&
             m.halfedgeIndexSize() == m.nHalfedges() && m.boundaryLoopIndexSize() == m.nBoundaryLoops(),
      when << ": index spaces are not dense");
  // translate back to old handles
  Model b = snap(m), t;
  for (size_t v : b.V) t.V.insert(vl[m.vertex(v)]);
  auto tr = [&](const Cyc& c) {
    Cyc r;
    for (auto& s : c) r.push_back({el[m.edge(s.e)], vl[m.vertex(s.tail)], hl[m.halfedge(s.he)]});
    return r;
  };
  for (auto& f : b.F) {
    size_t k = fl[m.face(f.first)];
    REQ(g, !t.F.count(k), when << ": two faces carry the label " << k);
    t.F[k] = tr(f.second);
    for (auto& s : f.second) REQ(g, cl[m.halfedge(s.he).corner()] == hl[m.halfedge(s.he)], when << ": corner data does not follow halfedge data");
  }
  for (auto& l : b.B) t.B.push_back(tr(l));
  REQ(g, t.V.size() == b.V.size(), when << ": vertex labels collide");
  compare(g, a, t, when);
  auto sides = [](Model& M) {
    std::set<std::array<size_t, 3>> s;
    for (auto& f : M.F)
      for (auto& x : f.second) s.insert({x.he, x.e, x.tail});
    for (auto& f : M.B)
      for (auto& x : f) s.insert({x.he, x.e, x.tail});
    return s;
  };
  REQ(g, sides(a) == sides(t), when << ": halfedge labels do not match");
  for (BoundaryLoop l : m.boundaryLoops())
    for (Halfedge h : l.adjacentHalfedges()) REQ(g, loopOf[hl[h]] == bl[l], when << ": boundary loop data");
  for (Edge e : m.edges()) REQ(g, hl[e.halfedge()] == eHe[el[e]], when << ": e.halfedge() changed");
  if (m.usesImplicitTwin())
    for (Vertex v : m.vertices()) REQ(g, hl[v.halfedge()] == vHe[vl[v]], when << ": v.halfedge() changed");
  checkStructure(g, m, when);
}

static bool usable(G& g, const Glued& gl) {
  if (gl.selfEdge || gl.polys.empty()) return false;
  return true;
}

// ---- C03
static void historyManifold(G& g, ManifoldSurfaceMesh& m, int maxOps) {
  int n = g.range(1, maxOps);
  int kinds = 0, did = 0;
  for (int i = 0; i < n; i++) {
    std::string when = "step " + std::to_string(i);
    if (m.nFaces() == 0) break;
    if (g.chance(.1)) {
      compressChecked(g, m, when);
      continue;
    }
    int k = mutateManifold(g, m, when);
    if (k) did++;
    kinds |= k;
    checkStructure(g, m, when);
  }
  static const char* names[] = {"flip", "insertAlong", "splitTri", "insertVertex", "connect", "triangulate", "removeEdge", "removeVertex", "separate", "switch", "removeFace", "collapse"};
  for (int k = 0; k < 12; k++)
    if (kinds >> k & 1) g.label(names[k]);
  compressChecked(g, m, "end");
  if (did >= 2) g.nontrivial();
}
static void c03Simplicial(G& g) {
  GenOpts o;
  o.size = 2 + (int)g.below(2);
  o.edits = 4;
  Soup s = genManifold(g, o);
  g.note(s.desc, " ", str(s.polys));
  ManifoldSurfaceMesh m(s.polys);
  historyManifold(g, m, 18);
}
static void c03Tri(G& g) {
  GenOpts o;
  o.size = 2 + (int)g.below(2);
  o.edits = 4;
  o.tri = true;
  Soup s = genManifold(g, o);
  g.note(s.desc, " ", str(s.polys));
  ManifoldSurfaceMesh m(s.polys);
  historyManifold(g, m, 18);
}
static void c03Delta(G& g) {
  Glued gl = genGlued(g, 8, g.chance(.7));
  if (!usable(g, gl)) g.discard();
  g.note("glued ", str(gl.polys));
  ManifoldSurfaceMesh m(gl.polys, gl.twins);
  checkStructure(g, m, "twins");
  historyManifold(g, m, 14);
}

// ---- C04
static void historyGeneral(G& g, SurfaceMesh& m, int maxOps) {
  int n = g.range(1, maxOps);
  int did = 0, kinds = 0;
  for (int i = 0; i < n; i++) {
    std::string when = "step " + std::to_string(i);
    if (g.chance(.1)) {
      compressChecked(g, m, when);
      continue;
    }
    int k = mutateGeneral(g, m, when);
    if (k) did++;
    kinds |= k;
    checkStructure(g, m, when);
  }
  static const char* names[] = {"flip", "invert", "duplicate", "separateToNew", "separateEdges", "separateVertices", "orient"};
  for (int k = 0; k < 7; k++)
    if (kinds >> k & 1) g.label(names[k]);
  if (did >= 2) g.nontrivial();
  compressChecked(g, m, "end");
}
static void c04General(G& g) {
  Soup s = genGeneral(g, 12, g.chance(.6));
  g.note(s.desc, " ", str(s.polys));
  std::unique_ptr<SurfaceMesh> m = makeGeneral(s.polys);
  historyGeneral(g, *m, 14);
}
static void c04Manifoldize(G& g) {
  // the documented recipe: separate edges, orient, separate vertices -> manifold mesh
  Soup s = genGeneral(g, 14, g.chance(.6));
  g.note(s.desc, " ", str(s.polys));
  SurfaceMesh m(s.polys);
  int n = g.range(0, 3);
  for (int i = 0; i < n; i++) {
    if (g.coin()) opDuplicate(g, m, "prep");
    else opInvert(g, m, "prep");
  }
  opSepEdges(g, m, "recipe");
  checkStructure(g, m, "after separateNonmanifoldEdges");
  opOrient(g, m, "recipe");
  checkStructure(g, m, "after greedilyOrientFaces");
  opSepVerts(g, m, "recipe");
  checkStructure(g, m, "after separateNonmanifoldVertices");
  REQ(g, m.isManifold(), "isManifold() after separating");
  if (m.nFaces() > 2) g.nontrivial();
  m.compress();
  checkStructure(g, m, "after compress");
  bool simple = !hasSelfEdgeOrDup(snap(m));
  if (m.isOriented()) {
    g.label("orientable");
    std::unique_ptr<ManifoldSurfaceMesh> mm = m.toManifoldMesh();
    checkStructure(g, *mm, "toManifoldMesh");
    REQ(g, mm->nVertices() == m.nVertices() && mm->nFaces() == m.nFaces() && mm->nEdges() == m.nEdges() && mm->nCorners() == m.nCorners(), "counts");
    REQ(g, readPolys(*mm) == readPolys(m), "polygons of toManifoldMesh()");
    if (!simple) g.label("Delta-complex");
  } else {
    g.label("not orientable");
    REQ_THROWS(g, m.toManifoldMesh(), "not oriented");
  }
}

// ---- C05 containers
struct Box { // one container of each kind with a mirror of its contents by element handle
  VertexData<int> v;
  EdgeData<int> e;
  FaceData<int> f;
  HalfedgeData<int> h;
  CornerData<int> c;
  BoundaryLoopData<int> b;
  int def = 0;
  std::map<size_t, int> V, E, F, H, C, B;

  void fill(SurfaceMesh& m, int& next) {
    for (Vertex x : m.vertices()) V[x.getIndex()] = v[x] = next++;
    for (Edge x : m.edges()) E[x.getIndex()] = e[x] = next++;
    for (Face x : m.faces()) F[x.getIndex()] = f[x] = next++;
    for (Halfedge x : m.halfedges()) H[x.getIndex()] = h[x] = next++;
    for (Corner x : m.corners()) C[x.halfedge().getIndex()] = c[x] = next++;
    for (BoundaryLoop x : m.boundaryLoops()) B[x.getIndex()] = b[x] = next++;
  }
  void init(SurfaceMesh& m, int d) {
    v = VertexData<int>(m, d), e = EdgeData<int>(m, d), f = FaceData<int>(m, d), h = HalfedgeData<int>(m, d), c = CornerData<int>(m, d), b = BoundaryLoopData<int>(m, d);
    def = d;
    sync(m);
  }
  // after a mutation: elements that survived keep their value, new ones have the default
  void sync(SurfaceMesh& m) {
    std::map<size_t, int> nV, nE, nF, nH, nC, nB;
    auto get = [&](std::map<size_t, int>& o, size_t i) { return o.count(i) ? o[i] : def; };
    for (Vertex x : m.vertices()) nV[x.getIndex()] = get(V, x.getIndex());
    for (Edge x : m.edges()) nE[x.getIndex()] = get(E, x.getIndex());
    for (Face x : m.faces()) nF[x.getIndex()] = get(F, x.getIndex());
    for (Halfedge x : m.halfedges()) nH[x.getIndex()] = get(H, x.getIndex());
    for (Corner x : m.corners()) nC[x.halfedge().getIndex()] = get(C, x.halfedge().getIndex());
    for (BoundaryLoop x : m.boundaryLoops()) nB[x.getIndex()] = get(B, x.getIndex());
    V = nV, E = nE, F = nF, H = nH, C = nC, B = nB;
  }
  template <typename D, typename R, typename I>
  void cmp(G& g, const std::string& what, const D& d, R range, const std::map<size_t, int>& want, I ind) {
    Eigen::Matrix<int, Eigen::Dynamic, 1> vec = d.toVector();
    size_t k = 0;
    for (auto x : range) {
      size_t i = ind(x);
      REQ(g, d[x] == want.at(i), what << " data of element " << i << " is " << d[x] << " instead of " << want.at(i));
      REQ(g, k < (size_t)vec.size() && vec[k] == d[x], what << " toVector() entry " << k);
      k++;
    }
    REQ(g, k == (size_t)vec.size(), what << " toVector() size");
    REQ(g, d.size() <= (size_t)d.raw().size(), what << " size() " << d.size() << " but the buffer has " << d.raw().size());
  }
  void check(G& g, SurfaceMesh& m, const std::string& when) {
    cmp(g, when + ": vertex", v, m.vertices(), V, [](Vertex x) { return x.getIndex(); });
    cmp(g, when + ": edge", e, m.edges(), E, [](Edge x) { return x.getIndex(); });
    cmp(g, when + ": face", f, m.faces(), F, [](Face x) { return x.getIndex(); });
    cmp(g, when + ": halfedge", h, m.halfedges(), H, [](Halfedge x) { return x.getIndex(); });
    cmp(g, when + ": corner", c, m.corners(), C, [](Corner x) { return x.halfedge().getIndex(); });
    cmp(g, when + ": boundary loop", b, m.boundaryLoops(), B, [](BoundaryLoop x) { return x.getIndex(); });
  }
  void relabel(const std::map<size_t, size_t>& v_, const std::map<size_t, size_t>& e_, const std::map<size_t, size_t>& f_, const std::map<size_t, size_t>& h_,
               const std::map<size_t, size_t>& b_) {
    auto mv = [](std::map<size_t, int>& o, const std::map<size_t, size_t>& p) {
      std::map<size_t, int> n;
      for (auto& k : o) n[p.at(k.first)] = k.second;
      o = n;
    };
    mv(V, v_), mv(E, e_), mv(F, f_), mv(H, h_), mv(C, h_), mv(B, b_);
  }
};

static void containers(G& g, SurfaceMesh& m, ManifoldSurfaceMesh* mm) {
  std::vector<std::unique_ptr<Box>> boxes;
  int next = 1000;
  auto add = [&]() {
    boxes.emplace_back(new Box());
    boxes.back()->init(m, -1 - (int)g.below(50));
    if (g.coin()) boxes.back()->fill(m, next);
  };
  add();
  int n = g.range(1, 14), did = 0;
  std::vector<VertexData<int>> movedV; // moved-from containers that stay alive
  std::vector<HalfedgeData<double>> movedH;
  for (int i = 0; i < n; i++) {
    std::string when = "step " + std::to_string(i);
    switch (g.weighted({10, 2, 2, 1, 1, 1, 1, 1, 1})) {
    case 0: { // mutate
      int k = mm ? mutateManifold(g, *mm, when) : mutateGeneral(g, m, when);
      if (k) did++;
      for (auto& b : boxes) b->sync(m);
      break;
    }
    case 1: { // compress
      std::map<size_t, size_t> pv, pe, pf, ph, pb;
      // where did each element go?  Fresh label containers tell; the model comparison below shows that their answer
      // preserves every incidence, and the boxes must agree with it
      VertexData<size_t> lv(m);
      EdgeData<size_t> le(m);
      FaceData<size_t> lf(m);
      HalfedgeData<size_t> lh(m);
      BoundaryLoopData<size_t> lb(m);
      for (Vertex x : m.vertices()) lv[x] = x.getIndex();
      for (Edge x : m.edges()) le[x] = x.getIndex();
      for (Face x : m.faces()) lf[x] = x.getIndex();
      for (Halfedge x : m.halfedges()) lh[x] = x.getIndex();
      for (BoundaryLoop x : m.boundaryLoops()) lb[x] = x.getIndex();
      std::map<size_t, Cyc> loopsBefore;
      for (BoundaryLoop x : m.boundaryLoops()) loopsBefore[x.getIndex()] = walk(x.halfedge());
      Model a = snap(m);
      m.compress();
      g.note("compress");
      Model b = snap(m), want;
      for (Vertex x : m.vertices()) pv[lv[x]] = x.getIndex();
      for (Edge x : m.edges()) pe[le[x]] = x.getIndex();
      for (Face x : m.faces()) pf[lf[x]] = x.getIndex();
      for (Halfedge x : m.halfedges()) ph[lh[x]] = x.getIndex();
      for (BoundaryLoop x : m.boundaryLoops()) pb[lb[x]] = x.getIndex();
      for (size_t v : a.V) REQ(g, pv.count(v), when << " compress: vertex label lost");
      for (auto& f : a.F) REQ(g, pf.count(f.first), when << " compress: face label lost");
      for (auto& f : loopsBefore) REQ(g, pb.count(f.first), when << " compress: loop label lost");
      for (auto& f : a.F)
        for (auto& s : f.second) REQ(g, pe.count(s.e) && ph.count(s.he), when << " compress: edge or halfedge label lost");
      for (auto& f : loopsBefore)
        for (auto& s : f.second) REQ(g, m.halfedge(ph.at(s.he)).face() == m.boundaryLoop(pb[f.first]).asFace(), when << " compress: loop labels");
      for (size_t v : a.V) want.V.insert(pv[v]);
      auto tr = [&](const Cyc& c) {
        Cyc r;
        for (auto& s : c) r.push_back({pe[s.e], pv[s.tail], ph[s.he]});
        return r;
      };
      for (auto& f : a.F) want.F[pf[f.first]] = tr(f.second);
      for (auto& l : a.B) want.B.push_back(tr(l));
      compare(g, want, b, when + " compress");
      for (auto& x : boxes) x->relabel(pv, pe, pf, ph, pb);
      break;
    }
    case 2: g.note("new"), add(); break;
    case 3: { // copy
      g.note("copy");
      boxes.emplace_back(new Box(*g.pick(boxes)));
      if (g.coin()) boxes.back()->fill(m, next);
      break;
    }
    case 4: { // move
      g.note("move");
      size_t k = g.below(boxes.size());
      std::unique_ptr<Box> nb(new Box());
      if (g.coin()) nb->init(m, 7);
      *nb = std::move(*boxes[k]); // member-wise move assignment
      bool keepOld = g.coin();
      if (keepOld) {
        VertexData<int> t(m, 5);
        movedV.push_back(std::move(t));
        VertexData<int> u(std::move(movedV.back())); // leaves a moved-from object alive
        HalfedgeData<double> hd(m, 5);
        movedH.push_back(hd);
        HalfedgeData<double> hd2;
        hd2 = std::move(movedH.back());
        REQ(g, hd2.size() == hd.size(), when << ": moved container");
        // moved-from boxes stay alive too, as valid-but-unspecified objects
        std::unique_ptr<Box> dead(boxes[k].release());
        boxes[k] = std::move(nb);
        static std::vector<std::unique_ptr<Box>> graveyard;
        graveyard.push_back(std::move(dead));
      } else {
        boxes[k] = std::move(nb);
      }
      break;
    }
    case 5: { // destroy
      g.note("destroy");
      if (boxes.size() > 1) boxes.erase(boxes.begin() + g.below(boxes.size()));
      break;
    }
    case 6: { // write
      g.note("write");
      g.pick(boxes)->fill(m, next);
      break;
    }
    case 7: { // fill / setDefault
      Box& x = *g.pick(boxes);
      int d = -100 - (int)g.below(50);
      if (g.coin()) {
        g.note("fill");
        x.v.fill(d), x.e.fill(d), x.f.fill(d), x.h.fill(d), x.c.fill(d), x.b.fill(d);
        for (auto* p : {&x.V, &x.E, &x.F, &x.H, &x.C, &x.B})
          for (auto& k : *p) k.second = d;
      } else {
        g.note("setDefault");
        x.v.setDefault(d), x.e.setDefault(d), x.f.setDefault(d), x.h.setDefault(d), x.c.setDefault(d), x.b.setDefault(d);
        x.def = d;
        REQ(g, x.v.getDefault() == d, "getDefault()");
      }
      break;
    }
    default: { // vectors and arithmetic
      g.note("vector");
      Box& x = *g.pick(boxes);
      Eigen::Matrix<int, Eigen::Dynamic, 1> vv(m.nVertices()), cc(m.nCorners());
      for (long k = 0; k < vv.size(); k++) vv[k] = next++;
      for (long k = 0; k < cc.size(); k++) cc[k] = next++;
      x.v.fromVector(vv);
      x.c.fromVector(cc);
      size_t k = 0;
      for (Vertex y : m.vertices()) x.V[y.getIndex()] = vv[k++];
      k = 0;
      for (Corner y : m.corners()) x.C[y.halfedge().getIndex()] = cc[k++];
      Eigen::Matrix<int, Eigen::Dynamic, 1> bad(m.nVertices() + 1);
      bad.setZero();
      REQ_THROWS(g, x.v.fromVector(bad), "vector of the wrong size");
      // indexed: a random subset
      VertexData<size_t> ix(m, INVALID_IND);
      size_t cnt = 0;
      for (Vertex y : m.vertices())
        if (g.coin()) ix[y] = cnt++;
      Eigen::Matrix<int, Eigen::Dynamic, 1> out = x.v.toVector(ix);
      REQ(g, (size_t)out.size() == cnt, "toVector(indexer) size");
      for (Vertex y : m.vertices())
        if (ix[y] != INVALID_IND) REQ(g, out[ix[y]] == x.v[y], "toVector(indexer)");
      for (size_t q = 0; q < cnt; q++) out[q] = next++;
      x.v.fromVector(out, ix);
      for (Vertex y : m.vertices())
        if (ix[y] != INVALID_IND) x.V[y.getIndex()] = out[ix[y]];
      VertexData<int> sum = x.v + x.v, neg = -x.v, two = x.v * 2;
      sum -= x.v;
      EdgeData<double> ed = x.e * 0.5;
      for (Vertex y : m.vertices())
        REQ(g, sum[y] == x.v[y] && neg[y] == -x.v[y] && two[y] == 2 * x.v[y], "arithmetic on vertex data");
      for (Edge y : m.edges()) REQ(g, ed[y] == 0.5 * x.e[y], "arithmetic on edge data");
      break;
    }
    }
    for (auto& b : boxes) b->check(g, m, when);
    checkStructure(g, m, when);
  }
  if (did) g.nontrivial();
  g.label(mm ? "manifold" : "general");
}
static void c05Manifold(G& g) {
  GenOpts o;
  o.size = 2;
  o.edits = 3;
  o.tri = g.coin();
  Soup s = genManifold(g, o);
  g.note(s.desc, " ", str(s.polys));
  ManifoldSurfaceMesh m(s.polys);
  containers(g, m, &m);
}
static void c05Delta(G& g) {
  Glued gl = genGlued(g, 8, g.chance(.7));
  if (!usable(g, gl)) g.discard();
  g.note("glued ", str(gl.polys));
  ManifoldSurfaceMesh m(gl.polys, gl.twins);
  containers(g, m, &m);
}
static void c05General(G& g) {
  Soup s = genGeneral(g, 10, g.chance(.6));
  g.note(s.desc, " ", str(s.polys));
  SurfaceMesh m(s.polys);
  containers(g, m, nullptr);
}
static void c05Lifetime(G& g) {
  // containers may outlive their mesh, be cleared, re-assigned across meshes
  GenOpts o;
  o.size = 2;
  Soup s = genManifold(g, o), s2 = genManifold(g, o);
  g.note(s.desc, " ", str(s.polys), " / ", str(s2.polys));
  std::unique_ptr<ManifoldSurfaceMesh> A(new ManifoldSurfaceMesh(s.polys)), B(new ManifoldSurfaceMesh(s2.polys));
  std::vector<VertexData<int>> cs;
  std::vector<int> on; // 0: none 1: A 2: B
  int n = g.range(2, 12);
  for (int i = 0; i < n; i++) {
    ManifoldSurfaceMesh* m = g.coin() ? A.get() : B.get();
    switch (g.below(8)) {
    case 0:
    case 1:
      if (m) {
        cs.push_back(VertexData<int>(*m, i));
        on.push_back(m == A.get() ? 1 : 2);
      }
      break;
    case 2:
      if (cs.size() > 1) {
        size_t a = g.below(cs.size()), b = g.below(cs.size());
        if (a != b && on[b] != 0) {
          cs[a] = cs[b];
          on[a] = on[b];
        }
      }
      break;
    case 3:
      if (cs.size() > 1) {
        size_t a = g.below(cs.size()), b = g.below(cs.size());
        if (a != b && on[b] != 0) {
          cs[a] = std::move(cs[b]);
          on[a] = on[b];
          on[b] = -1; // valid but unspecified
        }
      }
      break;
    case 4:
      if (cs.size()) {
        size_t a = g.below(cs.size());
        if (on[a] > 0) {
          cs[a].clear();
          REQ(g, cs[a].size() == 0 && cs[a].getMesh() == nullptr, "clear()");
          on[a] = 0;
        }
      }
      break;
    case 5:
      if (m) {
        opInsertVertex(g, *m, "lifetime");
        m->compress();
      }
      break;
    case 6:
      if (m && g.chance(.3)) {
        int which = m == A.get() ? 1 : 2;
        if (which == 1) A.reset();
        else B.reset();
        for (auto& k : on)
          if (k == which) k = -1;
      }
      break;
    default:
      if (cs.size()) {
        size_t a = g.below(cs.size());
        cs.erase(cs.begin() + a);
        on.erase(on.begin() + a);
      }
    }
    for (size_t k = 0; k < cs.size(); k++)
      if (on[k] > 0) {
        ManifoldSurfaceMesh* p = on[k] == 1 ? A.get() : B.get();
        REQ(g, cs[k].getMesh() == p, "getMesh()");
        REQ(g, cs[k].size() <= (size_t)cs[k].raw().size() && cs[k].size() >= p->nVertices(), "size after " << i);
        for (Vertex v : p->vertices()) cs[k][v] += 1;
      }
    if (cs.size() > 2) g.nontrivial();
  }
}

// ---- C06 copies
static std::vector<std::vector<size_t>> arrays(SurfaceMesh& m) {
  // everything observable by handle
  std::vector<std::vector<size_t>> r;
  for (Halfedge h : m.halfedges())
    r.push_back({0, h.getIndex(), h.next().getIndex(), h.sibling().getIndex(), h.vertex().getIndex(), h.edge().getIndex(), h.orientation(),
                 h.isInterior(), h.isInterior() ? h.face().getIndex() : (m.usesImplicitTwin() ? h.face().asBoundaryLoop().getIndex() : 0)});
  for (Vertex v : m.vertices()) r.push_back({1, v.getIndex(), v.halfedge().getIndex(), v.degree(), v.isBoundary()});
  for (Edge e : m.edges()) r.push_back({2, e.getIndex(), e.halfedge().getIndex(), e.isBoundary()});
  for (Face f : m.faces()) r.push_back({3, f.getIndex(), f.halfedge().getIndex()});
  for (BoundaryLoop b : m.boundaryLoops()) r.push_back({4, b.getIndex(), b.halfedge().getIndex()});
  r.push_back({5, m.nVertices(), m.nEdges(), m.nFaces(), m.nHalfedges(), m.nInteriorHalfedges(), m.nCorners(), m.nBoundaryLoops(),
               m.nConnectedComponents(), (size_t)m.isCompressed(), m.vertexIndexSize(), m.edgeIndexSize(), m.faceIndexSize(), m.halfedgeIndexSize(),
               m.boundaryLoopIndexSize(), (size_t)m.usesImplicitTwin()});
  return r;
}
static void copies(G& g, SurfaceMesh& m, ManifoldSurfaceMesh* mm) {
  int n = g.range(0, 8);
  for (int i = 0; i < n; i++) {
    if (mm) mutateManifold(g, *mm, "history");
    else mutateGeneral(g, m, "history");
  }
  if (g.chance(.4)) m.compress();
  g.label(m.isCompressed() ? "compressed" : "with gaps");
  auto a = arrays(m);
  std::unique_ptr<SurfaceMesh> c;
  std::unique_ptr<ManifoldSurfaceMesh> cm;
  SurfaceMesh* q;
  if (mm && g.coin()) {
    cm = mm->copy();
    q = cm.get();
    g.note("copy()");
  } else if (g.coin()) {
    c = m.copyToSurfaceMesh();
    q = c.get();
    g.note("copyToSurfaceMesh()");
  } else {
    c = m.copy();
    q = c.get();
    g.note("SurfaceMesh::copy()");
  }
  ManifoldSurfaceMesh* qm = dynamic_cast<ManifoldSurfaceMesh*>(q);
  if (q->usesImplicitTwin() && mm && c) REQ(g, qm, "a copy of a manifold mesh is a manifold mesh");
  REQ(g, arrays(*q) == a, "the copy differs from the original");
  checkStructure(g, *q, "copy");
  // containers
  if (m.isCompressed()) {
    VertexData<int> v(m, 3);
    CornerData<int> k(m, 4);
    FaceData<int> f(m, 5);
    HalfedgeData<int> h(m, 6);
    EdgeData<int> e(m, 7);
    BoundaryLoopData<int> bl(m, 8);
    int x = 100;
    for (Vertex y : m.vertices()) v[y] = x++;
    for (Corner y : m.corners()) k[y] = x++;
    for (Face y : m.faces()) f[y] = x++;
    for (Halfedge y : m.halfedges()) h[y] = x++;
    for (Edge y : m.edges()) e[y] = x++;
    for (BoundaryLoop y : m.boundaryLoops()) bl[y] = x++;
    auto v2 = v.reinterpretTo(*q);
    auto k2 = k.reinterpretTo(*q);
    auto f2 = f.reinterpretTo(*q);
    auto h2 = h.reinterpretTo(*q);
    auto e2 = e.reinterpretTo(*q);
    auto b2 = bl.reinterpretTo(*q);
    auto all = [&](SurfaceMesh& t) {
      for (Vertex y : t.vertices()) REQ(g, v2[y] == v[m.vertex(y.getIndex())], "vertex data on the copy");
      for (Corner y : t.corners()) REQ(g, k2[y] == k[m.halfedge(y.halfedge().getIndex()).corner()], "corner data on the copy");
      for (Face y : t.faces()) REQ(g, f2[y] == f[m.face(y.getIndex())], "face data on the copy");
      for (Halfedge y : t.halfedges()) REQ(g, h2[y] == h[m.halfedge(y.getIndex())], "halfedge data on the copy");
      for (Edge y : t.edges()) REQ(g, e2[y] == e[m.edge(y.getIndex())], "edge data on the copy");
      for (BoundaryLoop y : t.boundaryLoops()) REQ(g, b2[y] == bl[m.boundaryLoop(y.getIndex())], "boundary loop data on the copy");
    };
    REQ(g, v2.getMesh() == q && v2.getDefault() == 3, "mesh and default of reinterpreted data");
    all(*q);
    if (mm && qm) { // and it lives on through mutation of the copy
      opInsertVertex(g, *qm, "copy with data");
      size_t nd = 0;
      for (Vertex y : qm->vertices()) nd += v2[y] == 3;
      REQ(g, nd == 1, "a new vertex of the copy has the default value");
      REQ(g, arrays(m) == a, "editing the copy changed the original");
      qm->compress();
      nd = 0;
      for (Vertex y : qm->vertices()) nd += v2[y] == 3;
      REQ(g, nd == 1, "after compress");
    }
  }
  // independence
  for (int i = 0; i < 3; i++) {
    if (qm) mutateManifold(g, *qm, "copy");
    else mutateGeneral(g, *q, "copy");
  }
  REQ(g, arrays(m) == a, "editing the copy changed the original");
  checkStructure(g, *q, "edited copy");
  auto b = arrays(*q);
  for (int i = 0; i < 3; i++) {
    if (mm) mutateManifold(g, *mm, "original");
    else mutateGeneral(g, m, "original");
  }
  m.compress();
  REQ(g, arrays(*q) == b, "editing the original changed the copy");
  q->compress();
  checkStructure(g, *q, "compressed copy");
  g.nontrivial();
}
static void c06Manifold(G& g) {
  GenOpts o;
  o.size = 2;
  o.edits = 3;
  Soup s = genManifold(g, o);
  g.note(s.desc, " ", str(s.polys));
  ManifoldSurfaceMesh m(s.polys);
  copies(g, m, &m);
}
static void c06General(G& g) {
  Soup s = genGeneral(g, 10, g.chance(.6));
  g.note(s.desc, " ", str(s.polys));
  SurfaceMesh m(s.polys);
  copies(g, m, nullptr);
}
static void c06ToManifold(G& g) {
  GenOpts o;
  o.size = 2;
  o.edits = 4;
  Soup s = genManifold(g, o);
  g.note(s.desc, " ", str(s.polys));
  SurfaceMesh m(s.polys);
  int n = g.range(0, 5);
  for (int i = 0; i < n; i++) opFlip(g, m, "history");
  for (Edge e : m.edges())
    if (e.firstVertex() == e.secondVertex()) g.discard(); // self-edges are rejected by the constructor
  std::unique_ptr<ManifoldSurfaceMesh> t = m.toManifoldMesh();
  checkStructure(g, *t, "toManifoldMesh");
  REQ(g, readPolys(*t) == readPolys(m), "polygons");
  // gluing, not only the polygons
  auto glue = [](SurfaceMesh& x) {
    std::set<std::array<size_t, 4>> r;
    for (Face f : x.faces()) {
      size_t i = 0;
      for (Halfedge h : f.adjacentHalfedges()) {
        if (!h.edge().isBoundary()) {
          Halfedge s = h.sibling();
          size_t j = 0;
          for (Halfedge k : s.face().adjacentHalfedges()) {
            if (k == s) break;
            j++;
          }
          r.insert({f.getIndex(), i, s.face().getIndex(), j});
        }
        i++;
      }
    }
    return r;
  };
  REQ(g, glue(m) == glue(*t), "sides are glued differently");
  g.nontrivial();
  if (!m.isCompressed()) g.discard();
  VertexData<int> v(m, 3);
  CornerData<int> k(m, 4);
  FaceData<int> f(m, 5);
  int x = 100;
  for (Vertex y : m.vertices()) v[y] = x++;
  for (Corner y : m.corners()) k[y] = x++;
  for (Face y : m.faces()) f[y] = x++;
  VertexData<int> v2 = v.reinterpretTo(*t);
  FaceData<int> f2 = f.reinterpretTo(*t);
  CornerData<int> k2 = k.reinterpretTo(*t);
  for (Vertex y : t->vertices()) REQ(g, v2[y] == v[y.getIndex()], "vertex data");
  for (Face y : t->faces()) REQ(g, f2[y] == f[y.getIndex()], "face data");
  REQ(g, v2.size() <= (size_t)v2.raw().size() && f2.size() <= (size_t)f2.raw().size() && k2.size() <= (size_t)k2.raw().size(),
      "reinterpreted containers have the size of their mesh: " << f2.size() << "/" << f2.raw().size() << " " << k2.size() << "/" << k2.raw().size());
  opInsertVertex(g, *t, "with data");
  t->compress();
  size_t nd = 0;
  for (Face y : t->faces()) nd += f2[y] == 5;
  REQ(g, nd + 1 == t->nFaces() - (m.nFaces() - 1), "face data after a mutation of the target: " << nd);
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  std::string hist = "random histories of mutations, each step compared with a list-level model of the connectivity, all structural invariants "
                     "checked after each step, interleaved with compress(); non-trivial: at least two operations took effect";
  specs.push_back({"C03",
                   "polygon and triangle surfaces, and Delta-complexes glued at random; " + hist,
                   {{"polygons", c03Simplicial, 6000, 150000}, {"triangles", c03Tri, 6000, 150000}, {"delta", c03Delta, 6000, 150000}},
                   {"edges at degree-one vertices are not subdivided", "separateEdge between two boundary vertices is documented as unsupported"}});
  specs.push_back({"C04",
                   "general (nonmanifold, non-orientable) meshes; " + hist,
                   {{"history", c04General, 9000, 200000}, {"manifoldize", c04Manifoldize, 6000, 150000}},
                   {}});
  specs.push_back({"C05",
                   "containers for all six element kinds created, copied, moved, written, resized through random mutation histories and "
                   "compress(); a mirror map by element handle is the oracle; non-trivial: at least one mutation took effect",
                   {{"manifold", c05Manifold, 6000, 120000}, {"delta", c05Delta, 4000, 80000}, {"general", c05General, 5000, 100000}, {"lifetime", c05Lifetime, 4000, 80000}},
                   {}});
  specs.push_back({"C06",
                   "copies of meshes after random histories, data carried over with reinterpretTo; then both are mutated independently",
                   {{"manifold", c06Manifold, 6000, 120000}, {"general", c06General, 6000, 120000}, {"to-manifold", c06ToManifold, 5000, 100000}},
                   {"reinterpretTo between compressed meshes, as documented"}});
  return pbt::run(argc, argv, specs);
}
