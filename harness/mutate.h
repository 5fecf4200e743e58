// Random mutation histories of surface meshes, each step checked against a list-level model.
#pragma once
#include "meshcheck.h"

namespace mg {

struct MSide {
  size_t e, tail, he;
  bool operator==(const MSide& o) const { return e == o.e && tail == o.tail; }
};
typedef std::vector<MSide> Cyc;

inline bool sameCyc(const Cyc& a, const Cyc& b) {
  if (a.size() != b.size()) return false;
  for (size_t r = 0; r < a.size(); r++) {
    bool ok = true;
    for (size_t i = 0; i < a.size() && ok; i++) ok = a[i] == b[(i + r) % b.size()];
    if (ok) return true;
  }
  return a.empty();
}
inline std::string strCyc(const Cyc& c) {
  std::ostringstream os;
  for (auto& s : c) os << "v" << s.tail << "-e" << s.e << "-";
  return os.str();
}

struct Model {
  std::set<size_t> V;
  std::map<size_t, Cyc> F;
  std::vector<Cyc> B;
};

inline Cyc walk(Halfedge h0) {
  Cyc c;
  Halfedge h = h0;
  do {
    c.push_back({h.edge().getIndex(), h.vertex().getIndex(), h.getIndex()});
    h = h.next();
    if (c.size() > 100000) throw std::runtime_error("face walk does not end");
  } while (h != h0);
  return c;
}

inline Model snap(SurfaceMesh& m) {
  Model r;
  for (size_t i = 0; i < m.vertexIndexSize(); i++)
    if (!m.vertex(i).isDead()) r.V.insert(i);
  for (size_t i = 0; i < m.faceIndexSize(); i++)
    if (!m.face(i).isDead()) r.F[i] = walk(m.face(i).halfedge());
  for (size_t i = 0; i < m.boundaryLoopIndexSize(); i++)
    if (!m.boundaryLoop(i).isDead()) r.B.push_back(walk(m.boundaryLoop(i).halfedge()));
  return r;
}

inline void compare(G& g, const Model& want, const Model& got, const std::string& when) {
  REQ(g, want.V == got.V, when << ": live vertices differ (" << got.V.size() << " instead of " << want.V.size() << ")");
  for (auto& f : want.F) {
    REQ(g, got.F.count(f.first), when << ": face " << f.first << " is gone");
    REQ(g, sameCyc(f.second, got.F.at(f.first)),
        when << ": face " << f.first << " is " << strCyc(got.F.at(f.first)) << " expected " << strCyc(f.second));
  }
  for (auto& f : got.F) REQ(g, want.F.count(f.first), when << ": unexpected face " << f.first << " " << strCyc(f.second));
  REQ(g, want.B.size() == got.B.size(), when << ": " << got.B.size() << " boundary loops instead of " << want.B.size());
  std::vector<char> used(want.B.size(), 0);
  for (auto& b : got.B) {
    bool ok = false;
    for (size_t i = 0; i < want.B.size() && !ok; i++)
      if (!used[i] && sameCyc(want.B[i], b)) used[i] = ok = true;
    REQ(g, ok, when << ": boundary loop " << strCyc(b) << " is not expected");
  }
}

// equality up to renaming of faces (F keys ignored)
inline void compareUnkeyed(G& g, const std::vector<Cyc>& want, const std::vector<Cyc>& got, const std::string& when) {
  REQ(g, want.size() == got.size(), when << ": " << got.size() << " faces instead of " << want.size());
  std::vector<char> used(want.size(), 0);
  for (auto& b : got) {
    bool ok = false;
    for (size_t i = 0; i < want.size() && !ok; i++)
      if (!used[i] && sameCyc(want[i], b)) used[i] = ok = true;
    REQ(g, ok, when << ": face " << strCyc(b) << " is not expected");
  }
}

// ---- model edits
inline void rotateTo(Cyc& c, size_t he) {
  for (size_t i = 0; i < c.size(); i++)
    if (c[i].he == he) {
      std::rotate(c.begin(), c.begin() + i, c.end());
      return;
    }
  throw std::runtime_error("model: halfedge not in cycle");
}
inline Cyc& cycOf(Model& m, size_t he) {
  for (auto& f : m.F)
    for (auto& s : f.second)
      if (s.he == he) return f.second;
  for (auto& b : m.B)
    for (auto& s : b)
      if (s.he == he) return b;
  throw std::runtime_error("model: no such halfedge");
}
inline size_t faceOf(Model& m, size_t he) {
  for (auto& f : m.F)
    for (auto& s : f.second)
      if (s.he == he) return f.first;
  return INVALID_IND;
}

inline Edge pickEdge(G& g, SurfaceMesh& m) {
  size_t k = g.below(m.nEdges());
  for (Edge e : m.edges())
    if (k-- == 0) return e;
  g.discard();
}
inline Face pickFace(G& g, SurfaceMesh& m) {
  size_t k = g.below(m.nFaces());
  for (Face f : m.faces())
    if (k-- == 0) return f;
  g.discard();
}
inline Vertex pickVertex(G& g, SurfaceMesh& m) {
  size_t k = g.below(m.nVertices());
  for (Vertex v : m.vertices())
    if (k-- == 0) return v;
  g.discard();
}
inline Halfedge pickInteriorHalfedge(G& g, SurfaceMesh& m) {
  size_t k = g.below(m.nInteriorHalfedges());
  for (Halfedge h : m.interiorHalfedges())
    if (k-- == 0) return h;
  g.discard();
}

inline bool hasSelfEdgeOrDup(const Model& m) {
  // not a simplicial complex?
  std::map<size_t, VPair> ends;
  std::map<VPair, size_t> byEnds;
  std::set<std::vector<size_t>> faces;
  for (auto& f : m.F) {
    std::vector<size_t> vs;
    for (size_t i = 0; i < f.second.size(); i++) {
      size_t a = f.second[i].tail, b = f.second[(i + 1) % f.second.size()].tail;
      vs.push_back(a);
      if (a == b) return true;
      auto k = mk(a, b);
      auto it = byEnds.find(k);
      if (it == byEnds.end()) byEnds[k] = f.second[i].e;
      else if (it->second != f.second[i].e) return true;
    }
    std::sort(vs.begin(), vs.end());
    if (std::unique(vs.begin(), vs.end()) != vs.end()) return true;
    if (vs.size() == 3 && !faces.insert(vs).second) return true;
    if (vs.size() < 3) return true;
  }
  return false;
}

// Outcome: true if the operation changed the mesh
inline bool opFlip(G& g, SurfaceMesh& m, const std::string& w0) {
  Edge e = pickEdge(g, m);
  bool prevent = g.chance(.6);
  std::string when = w0 + " flip(e" + std::to_string(e.getIndex()) + "," + (prevent ? "true)" : "false)");
  Model a = snap(m), want = a;
  size_t he1 = e.halfedge().getIndex();
  bool compressed = m.isCompressed();
  // expected result
  std::vector<std::pair<size_t, size_t>> sides; // (face, he)
  for (auto& f : a.F)
    for (auto& s : f.second)
      if (s.e == e.getIndex()) sides.push_back({f.first, s.he});
  bool possible = sides.size() == 2 && sides[0].first != sides[1].first && a.F[sides[0].first].size() == 3 && a.F[sides[1].first].size() == 3;
  size_t va = 0, vb = 0, vc = 0, vd = 0, fa = 0, fb = 0;
  bool sameDir = false;
  if (possible) {
    if (sides[0].second != he1) std::swap(sides[0], sides[1]);
    fa = sides[0].first, fb = sides[1].first;
    Cyc A = a.F[fa], B = a.F[fb];
    rotateTo(A, sides[0].second);
    rotateTo(B, sides[1].second);
    sameDir = A[0].tail == B[0].tail && A[1].tail == B[1].tail && A[0].tail != A[1].tail;
    if (!m.usesImplicitTwin() && A[0].tail == A[1].tail) sameDir = m.halfedge(sides[0].second).orientation() == m.halfedge(sides[1].second).orientation();
    auto inv = [](const Cyc& c) { // reversed triangle, starting with the same side
      Cyc r;
      r.push_back({c[0].e, c[1].tail, c[0].he});
      r.push_back({c[2].e, c[0].tail, c[2].he});
      r.push_back({c[1].e, c[2].tail, c[1].he});
      return r;
    };
    if (sameDir) A = inv(A);
    va = A[0].tail, vb = A[1].tail, vc = A[2].tail, vd = B[2].tail;
    Cyc nA{{A[0].e, vc, A[0].he}, {B[2].e, vd, B[2].he}, {A[1].e, vb, A[1].he}};
    Cyc nB{{B[0].e, vd, B[0].he}, {A[2].e, vc, A[2].he}, {B[1].e, va, B[1].he}};
    if (sameDir) nA = inv(nA);
    want.F[fa] = nA;
    want.F[fb] = nB;
  }
  bool adj = false;
  for (auto& f : a.F)
    for (size_t i = 0; i < f.second.size(); i++)
      if (mk(f.second[i].tail, f.second[(i + 1) % f.second.size()].tail) == mk(vc, vd)) adj = true;
  bool r = m.flip(e, prevent);
  g.note("flip", r ? "" : "(no)", prevent ? "" : "!");
  Model b = snap(m);
  REQ(g, m.isCompressed() == compressed, when << ": changed isCompressed()");
  if (!possible) REQ(g, !r, when << ": flipped an edge that cannot be flipped");
  if (possible && !prevent) REQ(g, r, when << ": did not flip a flippable edge");
  if (possible && prevent && vc != vd && !adj) REQ(g, r, when << ": did not flip although it creates no self or duplicate edge");
  if (possible && prevent && (vc == vd)) REQ(g, !r, when << ": preventSelfEdges, but the edge now connects vertex " << vc << " to itself");
  compare(g, r ? want : a, b, when);
  if (r && !sameDir) REQ(g, m.edge(e.getIndex()).halfedge().vertex().getIndex() == vc, when << ": rotated the wrong way");
  return r;
}

inline bool opInsertAlong(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Edge e = pickEdge(g, m);
  // an edge whose side directly follows/precedes its other side (degree-1 vertex) is outside the supported domain
  if (e.halfedge().next() == e.halfedge().twin() || e.halfedge().twin().next() == e.halfedge()) return false;
  std::string when = w0 + " insertVertexAlongEdge(e" + std::to_string(e.getIndex()) + ")";
  Model a = snap(m);
  size_t tail = e.halfedge().vertex().getIndex(), tip = e.halfedge().tipVertex().getIndex();
  size_t h1 = e.halfedge().getIndex(), h2 = e.halfedge().twin().getIndex();
  Halfedge he = m.insertVertexAlongEdge(e);
  g.note("insertAlong");
  Vertex nv = he.vertex();
  REQ(g, !a.V.count(nv.getIndex()), when << ": returned halfedge does not start at a new vertex");
  REQ(g, he.edge().halfedge() == he, when << ": he.edge().halfedge() != he");
  REQ(g, he.tipVertex().getIndex() == tip, when << ": returned halfedge does not point in the direction of e.halfedge()");
  REQ(g, nv.degree() == 2, when << ": degree of new vertex is " << nv.degree());
  // the two halves
  Halfedge o = he.prevOrbitFace();
  REQ(g, o.vertex().getIndex() == tail && o.edge().halfedge() == o, when << ": direction of the other half not preserved");
  size_t e1 = o.edge().getIndex(), e2 = he.edge().getIndex();
  REQ(g, (e1 == e.getIndex()) != (e2 == e.getIndex()), when << ": the original edge is not one of the two halves");
  Model want = a;
  want.V.insert(nv.getIndex());
  for (size_t h : {h1, h2}) {
    Cyc& c = cycOf(want, h);
    rotateTo(c, h);
    bool f = h == h1;
    MSide x{f ? e1 : e2, f ? tail : tip, h}, y{f ? e2 : e1, nv.getIndex(), INVALID_IND};
    c[0] = x;
    c.insert(c.begin() + 1, y);
  }
  compare(g, want, snap(m), when);
  return true;
}

inline bool opSplitTri(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Edge e = pickEdge(g, m);
  bool bdy = e.isBoundary();
  if (!e.halfedge().face().isTriangle() || (!bdy && !e.halfedge().twin().face().isTriangle())) {
    Model a = snap(m);
    REQ_THROWS(g, m.splitEdgeTriangular(e), w0 + " splitEdgeTriangular on a non-triangular neighbourhood");
    compare(g, a, snap(m), w0 + " rejected splitEdgeTriangular");
    return false;
  }
  if (!bdy && e.halfedge().face() == e.halfedge().twin().face()) return false;
  std::string when = w0 + " splitEdgeTriangular(e" + std::to_string(e.getIndex()) + ")";
  Model a = snap(m);
  size_t h1 = e.halfedge().getIndex(), h2 = e.halfedge().twin().getIndex();
  size_t tail = e.halfedge().vertex().getIndex(), tip = e.halfedge().tipVertex().getIndex();
  size_t f1 = e.halfedge().face().getIndex(), f2 = bdy ? INVALID_IND : e.halfedge().twin().face().getIndex();
  Halfedge he = m.splitEdgeTriangular(e);
  g.note("split");
  Vertex nv = he.vertex();
  size_t n = nv.getIndex();
  REQ(g, !a.V.count(n), when << ": no new vertex");
  REQ(g, he.tipVertex().getIndex() == tip, when << ": returned halfedge points the wrong way");
  REQ(g, he.edge().halfedge() == he, when << ": canonical direction of the returned edge");
  REQ(g, nv.degree() == (bdy ? 3u : 4u), when << ": new vertex has degree " << nv.degree());
  size_t e2 = he.edge().getIndex(), e1 = INVALID_IND;
  for (Halfedge h : nv.incomingHalfedges())
    if (h.vertex().getIndex() == tail && h.edge().halfedge() == h && (h.edge() == e || he.edge() == e) && h.edge() != he.edge()) e1 = h.edge().getIndex();
  REQ(g, e1 != INVALID_IND, when << ": other half of the edge (with preserved direction) not found, or the original edge is in neither half");
  Model b = snap(m);
  // expected faces, unkeyed for the new ones
  std::vector<Cyc> wantF, gotF;
  std::set<size_t> newE;
  for (auto& f : b.F) {
    gotF.push_back(f.second);
    for (auto& s : f.second) newE.insert(s.e);
  }
  for (auto& f : a.F)
    for (auto& s : f.second) newE.erase(s.e);
  newE.erase(e1);
  newE.erase(e2);
  REQ(g, newE.size() == (bdy ? 1u : 2u), when << ": number of new edges");
  auto spoke = [&](size_t other) {
    for (size_t k : newE)
      for (auto& f : b.F)
        for (size_t i = 0; i < f.second.size(); i++)
          if (f.second[i].e == k && mk(f.second[i].tail, f.second[(i + 1) % f.second.size()].tail) == mk(n, other)) {
            newE.erase(k);
            return k;
          }
    g.fail(when + ": no edge from the new vertex to the opposite vertex");
  };
  Model want = a;
  Cyc A = cycOf(want, h1);
  rotateTo(A, h1);
  size_t s1 = spoke(A[2].tail);
  std::vector<size_t> repl{f1};
  std::vector<Cyc> tris{{{e1, tail, 0}, {s1, n, 0}, A[2]}, {{e2, n, 0}, A[1], {s1, A[2].tail, 0}}};
  if (!bdy) {
    Cyc B = cycOf(want, h2);
    rotateTo(B, h2);
    size_t s2 = spoke(B[2].tail);
    tris.push_back({{e2, tip, 0}, {s2, n, 0}, B[2]});
    tris.push_back({{e1, n, 0}, B[1], {s2, B[2].tail, 0}});
    repl.push_back(f2);
  } else {
    Cyc& B = cycOf(want, h2);
    rotateTo(B, h2);
    B[0] = {e2, tip, h2};
    B.insert(B.begin() + 1, MSide{e1, n, 0});
  }
  for (size_t f : repl) {
    REQ(g, b.F.count(f), when << ": original face " << f << " not reused");
    want.F.erase(f);
  }
  for (auto& f : want.F) wantF.push_back(f.second);
  for (auto& t : tris) wantF.push_back(t);
  compareUnkeyed(g, wantF, gotF, when);
  want.V.insert(n);
  want.F = b.F;
  compare(g, want, b, when);
  return true;
}

inline bool opInsertVertex(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Face f = pickFace(g, m);
  std::string when = w0 + " insertVertex(f" + std::to_string(f.getIndex()) + ")";
  Model a = snap(m);
  Cyc c = a.F[f.getIndex()];
  Vertex v = m.insertVertex(f);
  g.note("insertVertex");
  size_t n = v.getIndex();
  REQ(g, !a.V.count(n), when << ": did not return a new vertex");
  Model b = snap(m), want = a;
  REQ(g, b.F.count(f.getIndex()) && b.F.size() == a.F.size() + c.size() - 1, when << ": number of faces");
  std::vector<size_t> spokes(c.size(), INVALID_IND); // spokes[i]: from corner i to n
  for (auto& x : b.F) {
    if (a.F.count(x.first) && x.first != f.getIndex()) continue;
    REQ(g, x.second.size() == 3, when << ": new face is not a triangle");
    bool ok = false;
    for (size_t i = 0; i < c.size() && !ok; i++)
      for (size_t r = 0; r < 3 && !ok; r++) {
        const MSide &p = x.second[r], &q = x.second[(r + 1) % 3], &t = x.second[(r + 2) % 3];
        if (p.he != c[i].he) continue;
        REQ(g, p == c[i], when << ": side of the face changed");
        size_t j = (i + 1) % c.size();
        REQ(g, q.tail == c[j].tail && t.tail == n, when << ": triangle does not reach the new vertex");
        REQ(g, spokes[j] == INVALID_IND || spokes[j] == q.e, when << ": spokes do not match up");
        REQ(g, spokes[i] == INVALID_IND || spokes[i] == t.e, when << ": spokes do not match up");
        spokes[j] = q.e;
        spokes[i] = t.e;
        ok = true;
      }
    REQ(g, ok, when << ": new face does not lie on a side of the old face");
    want.F[x.first] = x.second;
  }
  std::set<size_t> sp(spokes.begin(), spokes.end());
  REQ(g, sp.size() == c.size(), when << ": spokes are not distinct");
  want.V.insert(n);
  compare(g, want, b, when);
  return true;
}

inline bool opConnect(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Face f = pickFace(g, m);
  Model a = snap(m);
  Cyc c = a.F[f.getIndex()];
  size_t i = g.below(c.size()), j = g.below(c.size());
  Halfedge hA = m.halfedge(c[i].he), hB = m.halfedge(c[j].he);
  std::string when = w0 + " connectVertices(h" + std::to_string(hA.getIndex()) + ",h" + std::to_string(hB.getIndex()) + ")";
  size_t d = c.size();
  if (i == j || (i + 1) % d == j || (j + 1) % d == i) {
    REQ_THROWS(g, m.connectVertices(hA, hB), when << ": adjacent or equal corners");
    compare(g, a, snap(m), when + " rejected");
    return false;
  }
  Halfedge he = m.connectVertices(hA, hB);
  g.note("connect");
  REQ(g, he.vertex().getIndex() == c[i].tail && he.tipVertex().getIndex() == c[j].tail, when << ": returned halfedge has the wrong endpoints");
  Model b = snap(m), want = a;
  size_t nf = he.twin().face().getIndex(), ne = he.edge().getIndex();
  REQ(g, !a.F.count(nf), when << ": he.twin().face() is not the new face");
  REQ(g, he.face() == f, when << ": he.face() is not the original face");
  Cyc inNew, inOld;
  for (size_t k = i; k != j; k = (k + 1) % d) inNew.push_back(c[k]);
  inNew.push_back({ne, c[j].tail, 0});
  for (size_t k = j; k != i; k = (k + 1) % d) inOld.push_back(c[k]);
  inOld.push_back({ne, c[i].tail, 0});
  for (auto& x : a.F)
    for (auto& s : x.second) REQ(g, s.e != ne, when << ": edge is not new");
  want.F[f.getIndex()] = inOld;
  want.F[nf] = inNew;
  compare(g, want, b, when);
  return true;
}

inline bool opTriangulate(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Face f = pickFace(g, m);
  std::string when = w0 + " triangulate(f" + std::to_string(f.getIndex()) + ")";
  Model a = snap(m);
  Cyc c = a.F[f.getIndex()];
  if (c.size() < 3) return false;
  std::vector<Face> r = m.triangulate(f);
  if (c.size() > 3) g.note("triangulate", c.size());
  Model b = snap(m), want = a;
  std::set<size_t> rf;
  for (Face x : r) rf.insert(x.getIndex());
  REQ(g, r.size() == c.size() - 2 && rf.size() == r.size(), when << ": returned " << r.size() << " faces for degree " << c.size());
  REQ(g, rf.count(f.getIndex()), when << ": input face is not among the returned ones");
  std::map<size_t, std::vector<VPair>> inner; // new edge -> (tail,tip) of its sides
  std::multiset<size_t> oldSides;
  std::map<size_t, size_t> ownTail;
  for (auto& s : c) ownTail[s.he] = s.tail;
  size_t area = 0;
  for (size_t x : rf) {
    REQ(g, b.F.count(x) && (x == f.getIndex() || !a.F.count(x)), when << ": returned face " << x);
    REQ(g, b.F[x].size() == 3, when << ": returned face is not a triangle");
    for (int k = 0; k < 3; k++) {
      auto& s = b.F[x][k];
      if (ownTail.count(s.he)) {
        REQ(g, s.tail == ownTail[s.he], when << ": side changed");
        oldSides.insert(s.he);
      } else
        inner[s.e].push_back({s.tail, b.F[x][(k + 1) % 3].tail});
    }
    want.F[x] = b.F[x];
    area++;
  }
  REQ(g, oldSides.size() == c.size(), when << ": sides lost");
  REQ(g, inner.size() == c.size() - 3, when << ": number of inner edges");
  for (auto& k : inner) REQ(g, k.second.size() == 2 && k.second[0].first == k.second[1].second && k.second[0].second == k.second[1].first, when << ": inner edge sides do not match");
  compare(g, want, b, when);
  return c.size() > 3;
}

inline bool opRemoveEdge(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Edge e = pickEdge(g, m);
  std::string when = w0 + " removeEdge(e" + std::to_string(e.getIndex()) + ")";
  Model a = snap(m);
  if (e.isBoundary()) {
    REQ_THROWS(g, m.removeEdge(e), when << ": boundary edge");
    compare(g, a, snap(m), when + " rejected");
    return false;
  }
  size_t h1 = e.halfedge().getIndex(), h2 = e.halfedge().twin().getIndex();
  size_t f1 = e.halfedge().face().getIndex(), f2 = e.halfedge().twin().face().getIndex();
  // a vertex of degree 1 at either end would be left with a dangling corner
  bool possible = f1 != f2;
  Cyc A = cycOf(a, h1), B = cycOf(a, h2);
  if (possible && A.size() + B.size() - 2 < 2) return false;
  Face r = m.removeEdge(e);
  g.note(r == Face() ? "removeEdge(no)" : "removeEdge");
  if (!possible) {
    REQ(g, r == Face(), when << ": same face on both sides, should be impossible");
    compare(g, a, snap(m), when);
    return false;
  }
  REQ(g, r != Face(), when << ": refused to remove an interior edge between distinct faces");
  rotateTo(A, h1);
  rotateTo(B, h2);
  Cyc M(A.begin() + 1, A.end());
  M.insert(M.end(), B.begin() + 1, B.end());
  REQ(g, r.getIndex() == f1 || r.getIndex() == f2, when << ": returned face is neither of the two");
  Model want = a;
  want.F.erase(f1);
  want.F.erase(f2);
  want.F[r.getIndex()] = M;
  compare(g, want, snap(m), when);
  return true;
}

inline bool opRemoveVertex(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Vertex v = pickVertex(g, m);
  std::string when = w0 + " removeVertex(v" + std::to_string(v.getIndex()) + ")";
  Model a = snap(m);
  if (v.isBoundary()) {
    REQ_THROWS(g, m.removeVertex(v), when << ": boundary vertex");
    compare(g, a, snap(m), when + " rejected");
    return false;
  }
  // ring, counter-clockwise
  std::vector<size_t> fs;
  std::set<size_t> fset;
  for (Halfedge h : v.outgoingHalfedges()) {
    if (h.next() == h.twin() || h.next().next() == h) return false; // degenerate polygons: outside the domain
    fs.push_back(h.face().getIndex());
    fset.insert(fs.back());
  }
  Cyc ring;
  std::vector<Halfedge> out;
  Halfedge h = v.halfedge();
  do { // counter-clockwise around v
    out.push_back(h);
    h = h.prevOrbitFace().twin();
  } while (h != v.halfedge());
  bool simple = fset.size() == fs.size();
  std::set<size_t> ringV, ringE;
  for (Halfedge o : out) {
    Cyc c = walk(o); // o, ..., prev
    for (size_t i = 1; i + 1 < c.size(); i++) {
      ring.push_back(c[i]);
      simple = simple && ringV.insert(c[i].tail).second && ringE.insert(c[i].e).second && c[i].tail != v.getIndex();
    }
  }
  if (ring.size() < 2) simple = false; // would leave a face of degree one
  Face r = m.removeVertex(v);
  g.note(r == Face() ? "removeVertex(no)" : "removeVertex");
  if (r == Face()) {
    REQ(g, !simple || ring.size() < 3, when << ": refused although the neighbourhood is an embedded disk");
    compare(g, a, snap(m), when);
    return false;
  }
  REQ(g, ring.size() >= 2, when << ": created a face of degree one");
  Model want = a;
  for (size_t f : fset) want.F.erase(f);
  want.V.erase(v.getIndex());
  REQ(g, fset.count(r.getIndex()), when << ": returned face is not one of the removed ones");
  want.F[r.getIndex()] = ring;
  compare(g, want, snap(m), when);
  return true;
}

inline bool opSeparate(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Edge e = pickEdge(g, m);
  std::string when = w0 + " separateEdge(e" + std::to_string(e.getIndex()) + ")";
  Model a = snap(m);
  Halfedge he = e.halfedge();
  bool bA = he.vertex().isBoundary(), bB = he.tipVertex().isBoundary();
  if (e.isBoundary()) {
    REQ_THROWS(g, m.separateEdge(e), when << ": boundary edge");
    compare(g, a, snap(m), when + " rejected");
    return false;
  }
  if (bA && bB) {
    // documented as not implemented: a clean refusal
    try {
      m.separateEdge(e);
    } catch (std::runtime_error&) {
      compare(g, a, snap(m), when + " refused");
    }
    return false;
  }
  size_t h1 = he.getIndex(), h2 = he.twin().getIndex();
  size_t f1 = he.face().getIndex(), f2 = he.twin().face().getIndex();
  size_t tail = he.vertex().getIndex(), tip = he.tipVertex().getIndex();
  if (tail == tip || f1 == f2) return false;
  std::tuple<Halfedge, Halfedge> r = m.separateEdge(e);
  g.note(bA || bB ? "separate(1)" : "separate(0)");
  Halfedge r1 = std::get<0>(r), r2 = std::get<1>(r);
  Model b = snap(m);
  REQ(g, r1.face().getIndex() == f1 && r2.face().getIndex() == f2, when << ": returned halfedges are not in the two faces");
  REQ(g, r1.edge() != r2.edge() && r1.edge().isBoundary() && r2.edge().isBoundary(), when << ": the edge was not cut into two boundary edges");
  REQ(g, r1.edge() == e || r2.edge() == e, when << ": original edge not kept");
  size_t e1 = r1.edge().getIndex(), e2 = r2.edge().getIndex();
  Model want = a;
  std::set<size_t> newV;
  for (size_t v : b.V)
    if (!a.V.count(v)) newV.insert(v);
  for (auto& s : cycOf(want, h1))
    if (s.he == h1) s.e = e1;
  for (auto& s : cycOf(want, h2))
    if (s.he == h2) s.e = e2;
  if (!bA && !bB) {
    REQ(g, newV.empty(), when << ": unexpected new vertex");
    want.B.push_back({{e1, tip, 0}, {e2, tail, 0}});
  } else {
    REQ(g, newV.size() == 1, when << ": " << newV.size() << " new vertices");
    size_t n = *newV.begin(), s = bA ? tail : tip; // split vertex
    // corners at s form a fan, cut by the edge; one part goes to the new vertex.  Take the library's choice from
    // the corner of f1, and demand consistency for the whole part
    // fan by adjacency: order corners of s starting at the boundary
    std::vector<size_t> fan; // halfedges outgoing from s, ccw: each is one corner
    // outgoing interior halfedges at s in `a`: rebuild adjacency by edges
    std::map<size_t, size_t> outByHe; // he -> its prev side edge
    struct Cor {
      size_t he, outE, inE;
    };
    std::vector<Cor> cors;
    for (auto& f : a.F) {
      auto& c = f.second;
      for (size_t i = 0; i < c.size(); i++)
        if (c[i].tail == s) cors.push_back({c[i].he, c[i].e, c[(i + c.size() - 1) % c.size()].e});
    }
    // group corners connected without crossing edge e (separated): union find on edges
    std::vector<size_t> par(cors.size());
    std::iota(par.begin(), par.end(), 0);
    std::function<size_t(size_t)> find = [&](size_t x) { return par[x] == x ? x : par[x] = find(par[x]); };
    for (size_t i = 0; i < cors.size(); i++)
      for (size_t j = 0; j < cors.size(); j++)
        if (i != j && cors[i].outE == cors[j].inE && cors[i].outE != e.getIndex()) par[find(i)] = find(j);
    std::set<size_t> roots;
    for (size_t i = 0; i < cors.size(); i++) roots.insert(find(i));
    if (roots.size() != 2) return true; // self-edges around: not decided here
    // which group did the library give the new vertex?
    std::map<size_t, size_t> newTail;
    for (auto& f : b.F)
      for (auto& x : f.second) newTail[x.he] = x.tail;
    // tails by position instead: the halfedge of the cut sides may have been replaced
    auto tailNow = [&](size_t i) {
      size_t h = cors[i].he;
      if (h == h1) return r1.vertex().getIndex();
      if (h == h2) return r2.vertex().getIndex();
      return newTail.count(h) ? newTail[h] : INVALID_IND;
    };
    std::map<size_t, std::set<size_t>> gt;
    for (size_t i = 0; i < cors.size(); i++) gt[find(i)].insert(tailNow(i));
    std::set<size_t> tails;
    for (auto& k : gt) {
      REQ(g, k.second.size() == 1, when << ": corners on one side of the cut got different vertices");
      tails.insert(*k.second.begin());
    }
    REQ(g, tails == (std::set<size_t>{s, n}), when << ": the two sides of the cut do not have the old and the new vertex");
    for (size_t i = 0; i < cors.size(); i++)
      for (auto& f : want.F)
        for (auto& x : f.second)
          if (x.he == cors[i].he) x.tail = tailNow(i);
    want.V.insert(n);
    // the boundary loop that ran through s: ... -> s -> ... becomes ... -> s/n -> other -> n/s -> ...
    size_t other = bA ? tip : tail;
    bool done = false;
    for (auto& bl : want.B)
      for (size_t i = 0; i < bl.size() && !done; i++)
        if (bl[i].tail == s) {
          // exterior direction: leaving side bl[i] goes along an edge of the corner group whose inE is that edge
          size_t exE = bl[i].e;
          size_t vOut = INVALID_IND;
          for (size_t k = 0; k < cors.size(); k++)
            if (cors[k].inE == exE) vOut = tailNow(k);
          if (vOut == INVALID_IND) g.fail(when + ": model error");
          size_t vIn = vOut == s ? n : s;
          bl[i].tail = vOut;
          // arrive at vIn, then vIn -> other, other -> vOut.  which edge copies: exterior halfedge from vIn to other is the twin of an
          // interior halfedge other -> vIn
          size_t eIn = INVALID_IND, eOut = INVALID_IND;
          for (Halfedge rr : {r1, r2}) {
            if (rr.vertex().getIndex() == other && rr.tipVertex().getIndex() == vIn) eIn = rr.edge().getIndex();
            if (rr.vertex().getIndex() == vOut && rr.tipVertex().getIndex() == other) eOut = rr.edge().getIndex();
          }
          REQ(g, eIn != INVALID_IND && eOut != INVALID_IND, when << ": the two copies do not bound the cut");
          bl.insert(bl.begin() + i, MSide{eOut, other, 0});
          bl.insert(bl.begin() + i, MSide{eIn, vIn, 0});
          done = true;
        }
    REQ(g, done, when << ": model error");
  }
  compare(g, want, b, when);
  return true;
}

inline bool opSwitch(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Edge e = pickEdge(g, m);
  if (e.isBoundary()) return false; // would make e.halfedge() exterior
  if (e.halfedge().next() == e.halfedge().twin() || e.halfedge().twin().next() == e.halfedge()) return false;
  std::string when = w0 + " switchHalfedgeSides(e" + std::to_string(e.getIndex()) + ")";
  Model a = snap(m);
  Vertex t = e.halfedge().vertex(), p = e.halfedge().tipVertex();
  Face fa = e.halfedge().face(), fb = e.halfedge().twin().face();
  Halfedge r = m.switchHalfedgeSides(e);
  g.note("switch");
  REQ(g, r == e.halfedge() && r.vertex() == p && r.tipVertex() == t && r.face() == fb && r.twin().face() == fa, when << ": sides were not switched");
  compare(g, a, snap(m), when);
  return true;
}

inline bool opRemoveFace(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Face f = pickFace(g, m);
  std::string when = w0 + " removeFaceAlongBoundary(f" + std::to_string(f.getIndex()) + ")";
  Model a = snap(m);
  Cyc c = a.F[f.getIndex()];
  int nb = 0;
  size_t at = 0;
  std::set<size_t> es;
  for (size_t i = 0; i < c.size(); i++) {
    es.insert(c[i].e);
    if (m.edge(c[i].e).isBoundary()) nb++, at = i;
  }
  if (nb == 0) {
    REQ_THROWS(g, m.removeFaceAlongBoundary(f), when << ": not on the boundary");
    compare(g, a, snap(m), when + " rejected");
    return false;
  }
  if (es.size() != c.size()) return false;
  bool touches = false; // another vertex of the face on the boundary: removal would pinch the surface
  std::set<size_t> vs;
  for (size_t i = 0; i < c.size(); i++) {
    vs.insert(c[i].tail);
    if (i != at && i != (at + 1) % c.size() && m.vertex(c[i].tail).isBoundary()) touches = true;
  }
  if (vs.size() != c.size()) return false;
  bool r = m.removeFaceAlongBoundary(f);
  g.note(r ? "removeFace" : "removeFace(no)");
  Model want = a;
  if (nb == 1 && !touches) REQ(g, r, when << ": refused although the face has one boundary edge and all its other vertices are interior");
  if (r) {
    REQ(g, nb == 1, when << ": removed an ear or a component");
    REQ(g, !touches, when << ": removal pinches the surface at a vertex");
    want.F.erase(f.getIndex());
    size_t be = c[at].e;
    for (auto& bl : want.B)
      for (size_t i = 0; i < bl.size(); i++)
        if (bl[i].e == be) {
          Cyc repl;
          // exterior goes tip -> tail of the removed side: now along the face's other sides
          for (size_t k = 1; k < c.size(); k++) repl.push_back(c[(at + k) % c.size()]);
          bl.erase(bl.begin() + i);
          bl.insert(bl.begin() + i, repl.begin(), repl.end());
          i = bl.size();
          break;
        }
  }
  compare(g, want, snap(m), when);
  return r;
}

inline bool opCollapse(G& g, ManifoldSurfaceMesh& m, const std::string& w0) {
  Edge e = pickEdge(g, m);
  Model a = snap(m);
  if (hasSelfEdgeOrDup(a)) return false;
  bool bdy = e.isBoundary();
  if (!e.halfedge().face().isTriangle() || (!bdy && !e.halfedge().twin().face().isTriangle())) {
    REQ_THROWS(g, m.collapseEdgeTriangular(e), w0 + " collapse with a non-triangular neighbourhood");
    compare(g, a, snap(m), w0 + " rejected collapse");
    return false;
  }
  // "Assumes triangular simplicial complex as input (at least in neighborhood of collapse)"
  size_t A = e.halfedge().vertex().getIndex(), B = e.halfedge().tipVertex().getIndex();
  for (auto& f : a.F)
    for (auto& s : f.second)
      if ((s.tail == A || s.tail == B) && f.second.size() != 3) return false;
  std::string when = w0 + " collapseEdgeTriangular(e" + std::to_string(e.getIndex()) + ")";
  // link condition
  std::set<size_t> nA, nB, wing;
  std::map<size_t, int> nf;
  for (auto& f : a.F) {
    bool hA = false, hB = false;
    for (auto& s : f.second) {
      hA |= s.tail == A;
      hB |= s.tail == B;
    }
    for (auto& s : f.second) {
      if (hA) nA.insert(s.tail);
      if (hB) nB.insert(s.tail);
      if (hA && hB && s.tail != A && s.tail != B) wing.insert(s.tail);
    }
  }
  std::set<size_t> common;
  for (size_t x : nA)
    if (nB.count(x) && x != A && x != B) common.insert(x);
  bool link = common == wing && (bdy || !(m.vertex(A).isBoundary() && m.vertex(B).isBoundary()));
  // a wing vertex of degree 3 (or a boundary one of degree 2) would end up with two coincident faces
  bool degen = false;
  for (size_t x : wing)
    if (m.vertex(x).degree() <= (m.vertex(x).isBoundary() ? 2u : 3u)) degen = true;
  Vertex r = m.collapseEdgeTriangular(e);
  g.note(r == Vertex() ? "collapse(no)" : bdy ? "collapse(b)" : "collapse");
  Model b = snap(m);
  if (r == Vertex()) {
    REQ(g, !link || degen, when << ": refused a collapsible edge");
    compare(g, a, b, when + " refused");
    return false;
  }
  REQ(g, link, when << ": collapsed an edge although this makes the mesh nonmanifold");
  size_t keep = r.getIndex();
  REQ(g, keep == A || keep == B, when << ": returned vertex " << keep << " was not adjacent to the edge " << A << "-" << B);
  size_t gone = keep == A ? B : A;
  std::vector<size_t> newV(b.V.begin(), b.V.end()), wantV;
  for (size_t v : a.V)
    if (v != gone) wantV.push_back(v);
  REQ(g, newV == wantV, when << ": the endpoints " << A << " and " << B << " were not merged (kept " << keep << ")");
  // faces as vertex cycles
  auto vc = [](const Cyc& c) {
    std::vector<size_t> v;
    for (auto& s : c) v.push_back(s.tail);
    return v;
  };
  std::map<size_t, std::vector<size_t>> want;
  for (auto& f : a.F) {
    std::vector<size_t> v = vc(f.second);
    bool hA = false, hB = false;
    for (size_t& x : v) {
      hA |= x == A;
      hB |= x == B;
      if (x == gone) x = keep;
    }
    if (!(hA && hB)) want[f.first] = v;
  }
  REQ(g, want.size() == b.F.size(), when << ": number of faces");
  for (auto& f : want)
    REQ(g, b.F.count(f.first) && sameCycle(f.second, vc(b.F[f.first])), when << ": face " << f.first << " is wrong after the collapse");
  std::set<size_t> ea, eb;
  for (auto& f : a.F)
    for (auto& s : f.second) ea.insert(s.e);
  for (auto& f : b.F)
    for (auto& s : f.second) eb.insert(s.e);
  REQ(g, eb.size() + (bdy ? 2 : 3) == ea.size(), when << ": number of edges");
  return true;
}

// edges whose ends are glued to themselves etc. are allowed to appear (Delta-complexes)
inline int mutateManifold(G& g, ManifoldSurfaceMesh& m, const std::string& when, bool deltaOk = true) {
  static const std::vector<int> W{6, 3, 4, 3, 3, 2, 3, 2, 2, 1, 2, 4};
  std::vector<int> w = W;
  if (m.nFaces() > 60) w[1] = w[2] = w[3] = 0;
  switch (g.weighted(w)) {
  case 0: return opFlip(g, m, when) ? 1 : 0;
  case 1: return opInsertAlong(g, m, when) ? 2 : 0;
  case 2: return opSplitTri(g, m, when) ? 4 : 0;
  case 3: return opInsertVertex(g, m, when) ? 8 : 0;
  case 4: return opConnect(g, m, when) ? 16 : 0;
  case 5: return opTriangulate(g, m, when) ? 32 : 0;
  case 6: return opRemoveEdge(g, m, when) ? 64 : 0;
  case 7: return opRemoveVertex(g, m, when) ? 128 : 0;
  case 8: return opSeparate(g, m, when) ? 256 : 0;
  case 9: return opSwitch(g, m, when) ? 512 : 0;
  case 10: return opRemoveFace(g, m, when) ? 1024 : 0;
  default: return opCollapse(g, m, when) ? 2048 : 0;
  }
}

// ---------------------------------------------------------------- general meshes
inline bool opInvert(G& g, SurfaceMesh& m, const std::string& w0) {
  Face f = pickFace(g, m);
  std::string when = w0 + " invertOrientation(f" + std::to_string(f.getIndex()) + ")";
  Model want = snap(m);
  Cyc c = want.F[f.getIndex()], r;
  for (size_t i = c.size(); i-- > 0;) r.push_back({c[i].e, c[(i + 1) % c.size()].tail, c[i].he});
  want.F[f.getIndex()] = r;
  m.invertOrientation(f);
  g.note("invert");
  compare(g, want, snap(m), when);
  return true;
}
inline bool opDuplicate(G& g, SurfaceMesh& m, const std::string& w0) {
  Face f = pickFace(g, m);
  std::string when = w0 + " duplicateFace(f" + std::to_string(f.getIndex()) + ")";
  Model want = snap(m);
  Face n = m.duplicateFace(f);
  g.note("duplicate");
  REQ(g, !want.F.count(n.getIndex()), when << ": not a new face");
  want.F[n.getIndex()] = want.F[f.getIndex()];
  compare(g, want, snap(m), when);
  return true;
}
inline bool opSeparateToNew(G& g, SurfaceMesh& m, const std::string& w0) {
  Halfedge a = pickInteriorHalfedge(g, m);
  std::vector<Halfedge> hs;
  for (Halfedge h : a.edge().adjacentHalfedges()) hs.push_back(h);
  Halfedge b = g.pick(hs);
  std::string when = w0 + " separateToNewEdge";
  Model want = snap(m);
  if (a == b) {
    REQ_THROWS(g, m.separateToNewEdge(a, b), when << ": equal halfedges");
    compare(g, want, snap(m), when + " rejected");
    return false;
  }
  Edge e = a.edge();
  Edge n = m.separateToNewEdge(a, b);
  g.note("separateToNew", hs.size());
  if (hs.size() == 2) {
    REQ(g, n == e, when << ": a manifold edge should be returned unchanged");
  } else {
    REQ(g, n != e, when << ": no new edge");
    for (auto& f : want.F)
      for (auto& s : f.second) {
        REQ(g, s.e != n.getIndex(), when << ": edge is not new");
        if (s.he == a.getIndex() || s.he == b.getIndex()) s.e = n.getIndex();
      }
  }
  compare(g, want, snap(m), when);
  return hs.size() > 2;
}
inline bool opSepEdges(G& g, SurfaceMesh& m, const std::string& w0) {
  std::string when = w0 + " separateNonmanifoldEdges";
  Model a = snap(m);
  m.separateNonmanifoldEdges();
  g.note("sepEdges");
  Model b = snap(m);
  REQ(g, a.V == b.V && a.F.size() == b.F.size(), when << ": changed vertices or faces");
  std::map<size_t, std::vector<std::pair<size_t, size_t>>> oldE; // old edge -> (he, new edge)
  std::map<size_t, size_t> newOf;
  for (auto& f : b.F)
    for (auto& s : f.second) newOf[s.he] = s.e;
  std::map<size_t, std::set<size_t>> pre, cnt;
  for (auto& f : a.F) {
    REQ(g, b.F.count(f.first), when << ": face gone");
    Cyc c = f.second;
    for (auto& s : c) {
      REQ(g, newOf.count(s.he), when << ": side gone");
      pre[newOf[s.he]].insert(s.e);
      cnt[newOf[s.he]].insert(s.he);
      oldE[s.e].push_back({s.he, newOf[s.he]});
      s.e = newOf[s.he];
    }
    REQ(g, sameCyc(c, b.F[f.first]), when << ": face changed");
  }
  for (auto& k : pre) REQ(g, k.second.size() == 1, when << ": edges were merged");
  for (auto& k : cnt) REQ(g, k.second.size() <= 2, when << ": still a nonmanifold edge");
  for (auto& k : oldE)
    if (k.second.size() <= 2)
      for (auto& x : k.second) REQ(g, x.second == k.first, when << ": a manifold edge was changed");
  REQ(g, m.isEdgeManifold(), when << ": isEdgeManifold()");
  return true;
}
inline bool opSepVerts(G& g, SurfaceMesh& m, const std::string& w0) {
  std::string when = w0 + " separateNonmanifoldVertices";
  Model a = snap(m);
  std::map<size_t, std::vector<std::pair<size_t, size_t>>> eS; // edge -> (face, pos)
  for (auto& f : a.F)
    for (size_t i = 0; i < f.second.size(); i++) eS[f.second[i].e].push_back({f.first, i});
  bool em = true;
  for (auto& k : eS) em = em && k.second.size() <= 2;
  if (!em) {
    REQ_THROWS(g, m.separateNonmanifoldVertices(), when << ": not edge manifold");
    compare(g, a, snap(m), when + " rejected");
    return false;
  }
  for (auto& k : eS) { // self edges: corner pairing along the edge is not determined by the model
    auto& p = k.second[0];
    auto& c = a.F[p.first];
    if (c[p.second].tail == c[(p.second + 1) % c.size()].tail) return false;
  }
  // corner components
  std::map<std::pair<size_t, size_t>, size_t> ci;
  for (auto& f : a.F)
    for (size_t i = 0; i < f.second.size(); i++) ci.insert({{f.first, i}, ci.size()});
  std::vector<size_t> par(ci.size());
  std::iota(par.begin(), par.end(), 0);
  std::function<size_t(size_t)> find = [&](size_t x) { return par[x] == x ? x : par[x] = find(par[x]); };
  for (auto& k : eS)
    if (k.second.size() == 2)
      for (int x = 0; x < 2; x++)
        for (int y = 0; y < 2; y++) {
          auto& f0 = a.F[k.second[0].first];
          auto& f1 = a.F[k.second[1].first];
          size_t i = (k.second[0].second + x) % f0.size(), j = (k.second[1].second + y) % f1.size();
          if (f0[i].tail == f1[j].tail) par[find(ci[{k.second[0].first, i}])] = find(ci[{k.second[1].first, j}]);
        }
  VertexData<Vertex> parents = m.separateNonmanifoldVertices();
  g.note("sepVerts");
  Model b = snap(m);
  REQ(g, a.F.size() == b.F.size(), when << ": faces changed");
  std::map<size_t, size_t> compV, vComp;
  for (auto& f : a.F) {
    REQ(g, b.F.count(f.first), when << ": face gone");
    Cyc c = b.F[f.first];
    rotateTo(c, f.second[0].he);
    REQ(g, c.size() == f.second.size(), when << ": degree changed");
    for (size_t i = 0; i < c.size(); i++) {
      REQ(g, c[i].e == f.second[i].e && c[i].he == f.second[i].he, when << ": sides changed");
      size_t k = find(ci[{f.first, i}]), v = c[i].tail;
      REQ(g, !compV.count(k) || compV[k] == v, when << ": corners connected through edges got different vertices");
      REQ(g, !vComp.count(v) || vComp[v] == k, when << ": vertex " << v << " still joins two fans");
      compV[k] = v;
      vComp[v] = k;
      REQ(g, parents[m.vertex(v)].getIndex() == f.second[i].tail, when << ": parent of vertex " << v);
      REQ(g, a.V.count(v) ? v == f.second[i].tail : true, when << ": an old vertex moved elsewhere");
    }
  }
  REQ(g, b.V.size() == compV.size(), when << ": number of vertices");
  for (size_t v : a.V) REQ(g, b.V.count(v), when << ": vertex " << v << " vanished");
  for (Vertex v : m.vertices()) REQ(g, v.isManifold(), when << ": vertex is not manifold afterwards");
  return true;
}
inline bool opOrient(G& g, SurfaceMesh& m, const std::string& w0) {
  std::string when = w0 + " greedilyOrientFaces";
  Model a = snap(m);
  std::map<size_t, std::vector<std::pair<size_t, size_t>>> eS;
  for (auto& f : a.F)
    for (size_t i = 0; i < f.second.size(); i++) eS[f.second[i].e].push_back({f.first, i});
  m.greedilyOrientFaces();
  g.note("orient");
  Model b = snap(m);
  REQ(g, a.V == b.V && a.F.size() == b.F.size(), when << ": elements changed");
  std::map<size_t, bool> inv;
  for (auto& f : a.F) {
    Cyc c = f.second, r;
    for (size_t i = c.size(); i-- > 0;) r.push_back({c[i].e, c[(i + 1) % c.size()].tail, c[i].he});
    bool s = sameCyc(c, b.F[f.first]), t = sameCyc(r, b.F[f.first]);
    REQ(g, s || t, when << ": face is neither kept nor reversed");
  }
  // components over manifold interior edges: orientable <=> all such edges consistently oriented afterwards
  std::map<size_t, std::pair<size_t, int>> par; // union find with parity
  std::function<std::pair<size_t, int>(size_t)> find = [&](size_t x) {
    if (!par.count(x)) par[x] = {x, 0};
    if (par[x].first == x) return std::make_pair(x, 0);
    auto p = find(par[x].first);
    par[x] = {p.first, p.second ^ par[x].second};
    return par[x];
  };
  std::set<size_t> bad;
  std::vector<std::pair<size_t, bool>> edgesAfter;
  for (auto& k : eS) {
    if (k.second.size() != 2) continue;
    auto side = [&](Model& M, int q) {
      auto& c = M.F[k.second[q].first];
      size_t i = k.second[q].second;
      return std::make_pair(c[i].tail, c[(i + 1) % c.size()].tail);
    };
    auto s0 = side(a, 0), s1 = side(a, 1);
    if (s0.first == s0.second) return true; // self edge: direction not visible in the model
    int need = s0 == s1 ? 1 : 0;
    auto p = find(k.second[0].first), q = find(k.second[1].first);
    if (p.first == q.first) {
      if ((p.second ^ q.second) != need) bad.insert(p.first);
    } else
      par[p.first] = {q.first, p.second ^ q.second ^ need};
  }
  std::set<size_t> badRoots;
  for (size_t x : bad) badRoots.insert(find(x).first);
  for (auto& k : eS)
    if (k.second.size() == 2 && !badRoots.count(find(k.second[0].first).first))
      REQ(g, m.edge(k.first).isOriented(), when << ": an orientable patch was not oriented consistently");
  return true;
}
inline int mutateGeneral(G& g, SurfaceMesh& m, const std::string& when) {
  std::vector<int> w{6, 4, 2, 4, 1, 1, 1};
  if (m.nFaces() > 50) w[2] = 0;
  switch (g.weighted(w)) {
  case 0: return opFlip(g, m, when) ? 1 : 0;
  case 1: return opInvert(g, m, when) ? 2 : 0;
  case 2: return opDuplicate(g, m, when) ? 4 : 0;
  case 3: return opSeparateToNew(g, m, when) ? 8 : 0;
  case 4: return opSepEdges(g, m, when) ? 16 : 0;
  case 5: return opSepVerts(g, m, when) ? 32 : 0;
  default: return opOrient(g, m, when) ? 64 : 0;
  }
}

inline std::unique_ptr<SurfaceMesh> makeGeneral(const Polys& p) { return std::unique_ptr<SurfaceMesh>(new SurfaceMesh(p)); }

// A Delta-complex: polygons glued along sides (closed or with boundary), as polygons + twins.
struct Glued {
  Polys polys;
  std::vector<std::vector<std::tuple<size_t, size_t>>> twins;
  bool selfEdge = false;
};
inline Glued genGlued(G& g, int maxF, bool tri) {
  int nf = g.range(1, maxF);
  std::vector<std::pair<size_t, size_t>> sides;
  std::vector<int> deg;
  for (int i = 0; i < nf; i++) {
    deg.push_back(tri ? 3 : g.range(3, 5));
    for (int j = 0; j < deg.back(); j++) sides.push_back({(size_t)i, (size_t)j});
  }
  Glued r;
  r.twins.resize(nf);
  for (int i = 0; i < nf; i++) r.twins[i].assign(deg[i], std::make_tuple(INVALID_IND, INVALID_IND));
  g.shuffle(sides);
  double pb = g.real(0, .6);
  for (size_t i = 0; i + 1 < sides.size(); i += 2) {
    if (g.chance(pb)) continue;
    auto a = sides[i], b = sides[i + 1];
    r.twins[a.first][a.second] = std::make_tuple(b.first, b.second);
    r.twins[b.first][b.second] = std::make_tuple(a.first, a.second);
  }
  // vertices: classes of corners
  std::map<std::pair<size_t, size_t>, size_t> ci;
  for (int i = 0; i < nf; i++)
    for (int j = 0; j < deg[i]; j++) ci.insert({{(size_t)i, (size_t)j}, ci.size()});
  std::vector<size_t> par(ci.size());
  std::iota(par.begin(), par.end(), 0);
  std::function<size_t(size_t)> find = [&](size_t x) { return par[x] == x ? x : par[x] = find(par[x]); };
  for (int i = 0; i < nf; i++)
    for (int j = 0; j < deg[i]; j++) {
      size_t f = std::get<0>(r.twins[i][j]), s = std::get<1>(r.twins[i][j]);
      if (f == INVALID_IND) continue;
      par[find(ci[{(size_t)i, (size_t)j}])] = find(ci[{f, (s + 1) % deg[f]}]);
      par[find(ci[{(size_t)i, (size_t)(j + 1) % deg[i]}])] = find(ci[{f, s}]);
    }
  std::map<size_t, size_t> name;
  r.polys.resize(nf);
  for (int i = 0; i < nf; i++)
    for (int j = 0; j < deg[i]; j++) {
      size_t c = find(ci[{(size_t)i, (size_t)j}]);
      if (!name.count(c)) {
        size_t k = name.size();
        name[c] = k;
      }
      r.polys[i].push_back(name[c]);
    }
  for (auto& p : r.polys)
    for (size_t j = 0; j < p.size(); j++) r.selfEdge |= p[j] == p[(j + 1) % p.size()];
  return r;
}

} // namespace mg
