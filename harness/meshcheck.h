// Oracles for surface meshes: structural invariants from primitive navigation, and agreement of
// every query/iterator with the reference model built from polygon lists.
#pragma once
#include "meshgen.h"

#include <memory>

namespace mg {

template <typename T>
std::vector<T> sorted(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  return v;
}
template <typename R>
std::vector<size_t> idx(R range) {
  std::vector<size_t> r;
  size_t guard = 0;
  for (auto e : range) {
    r.push_back(e.getIndex());
    if (++guard > 2000000) throw std::runtime_error("iteration does not end");
  }
  return r;
}

// Structural invariants that hold for any mesh, Delta-complex or not, whatever its history.
inline void checkStructure(G& g, SurfaceMesh& m, const std::string& when) {
  bool imp = m.usesImplicitTwin();
  std::vector<size_t> V, E, F, H, B, HI, HX, C;
  for (size_t i = 0; i < m.vertexIndexSize(); i++)
    if (!m.vertex(i).isDead()) V.push_back(i);
  for (size_t i = 0; i < m.edgeIndexSize(); i++)
    if (!m.edge(i).isDead()) E.push_back(i);
  for (size_t i = 0; i < m.faceIndexSize(); i++)
    if (!m.face(i).isDead()) F.push_back(i);
  for (size_t i = 0; i < m.halfedgeIndexSize(); i++)
    if (!m.halfedge(i).isDead()) {
      H.push_back(i);
      if (m.halfedge(i).isInterior()) HI.push_back(i);
      else HX.push_back(i);
    }
  for (size_t i = 0; i < m.boundaryLoopIndexSize(); i++)
    if (!m.boundaryLoop(i).isDead()) B.push_back(i);

  REQ(g, idx(m.vertices()) == V, when << ": vertices() does not visit the live vertices in order");
  REQ(g, idx(m.edges()) == E, when << ": edges()");
  REQ(g, idx(m.faces()) == F, when << ": faces()");
  REQ(g, idx(m.halfedges()) == H, when << ": halfedges()");
  REQ(g, idx(m.interiorHalfedges()) == HI, when << ": interiorHalfedges()");
  REQ(g, idx(m.exteriorHalfedges()) == HX, when << ": exteriorHalfedges()");
  REQ(g, idx(m.corners()) == HI, when << ": corners()");
  REQ(g, idx(m.boundaryLoops()) == B, when << ": boundaryLoops()");
  REQ(g, m.nVertices() == V.size(), when << ": nVertices " << m.nVertices() << " live " << V.size());
  REQ(g, m.nEdges() == E.size(), when << ": nEdges " << m.nEdges() << " live " << E.size());
  REQ(g, m.nFaces() == F.size(), when << ": nFaces " << m.nFaces() << " live " << F.size());
  REQ(g, m.nHalfedges() == H.size(), when << ": nHalfedges " << m.nHalfedges() << " live " << H.size());
  REQ(g, m.nInteriorHalfedges() == HI.size(), when << ": nInteriorHalfedges " << m.nInteriorHalfedges() << " live " << HI.size());
  REQ(g, m.nExteriorHalfedges() == HX.size(), when << ": nExteriorHalfedges " << m.nExteriorHalfedges() << " live " << HX.size());
  REQ(g, m.nCorners() == HI.size(), when << ": nCorners " << m.nCorners() << " live " << HI.size());
  REQ(g, m.nBoundaryLoops() == B.size(), when << ": nBoundaryLoops " << m.nBoundaryLoops() << " live " << B.size());
  if (m.isCompressed()) {
    REQ(g, m.nVertices() == m.vertexIndexSize() && m.nEdges() == m.edgeIndexSize() && m.nFaces() == m.faceIndexSize() &&
               m.nHalfedges() == m.halfedgeIndexSize() && m.nBoundaryLoops() == m.boundaryLoopIndexSize(),
        when << ": claims to be compressed but index spaces have gaps");
  }

  // primitive relations
  size_t nH = m.halfedgeIndexSize();
  std::vector<int> nextSeen(nH, 0), sibSeen(nH, 0);
  std::vector<std::vector<size_t>> out(m.vertexIndexSize()), in(m.vertexIndexSize());
  std::vector<std::vector<size_t>> eH(m.edgeIndexSize());
  std::map<size_t, size_t> faceSides; // face index (incl. boundary loops) -> sides
  for (size_t i : H) {
    Halfedge h = m.halfedge(i);
    Halfedge n = h.next(), s = h.sibling();
    REQ(g, n.getIndex() < nH && !n.isDead(), when << ": he " << i << ".next() is dead or out of range");
    REQ(g, s.getIndex() < nH && !s.isDead(), when << ": he " << i << ".sibling() is dead or out of range");
    REQ(g, nextSeen[n.getIndex()]++ == 0, when << ": next() is not a permutation at he " << n);
    REQ(g, sibSeen[s.getIndex()]++ == 0, when << ": sibling() is not a permutation at he " << s);
    REQ(g, n.face() == h.face(), when << ": he " << i << ".next().face() differs");
    REQ(g, s.edge() == h.edge(), when << ": sibling on another edge at he " << i);
    Vertex v = h.vertex();
    REQ(g, v.getIndex() < m.vertexIndexSize() && !v.isDead(), when << ": he " << i << ".vertex() is dead");
    REQ(g, h.edge().getIndex() < m.edgeIndexSize() && !h.edge().isDead(), when << ": he " << i << ".edge() is dead");
    REQ(g, h.tailVertex() == v && h.tipVertex() == n.vertex(), when << ": tail/tip of he " << i);
    REQ(g, !h.face().isDead(), when << ": he " << i << ".face() is dead");
    REQ(g, h.isInterior() == !h.face().isBoundaryLoop(), when << ": isInterior of he " << i);
    out[v.getIndex()].push_back(i);
    in[n.vertex().getIndex()].push_back(i);
    eH[h.edge().getIndex()].push_back(i);
    faceSides[h.face().getIndex()]++;
    if (imp) {
      Halfedge t = h.twin();
      REQ(g, t != h && t.twin() == h && t == s, when << ": twin involution at he " << i);
      REQ(g, t.vertex() == n.vertex(), when << ": he " << i << " twin's tail is not its tip");
      REQ(g, h.orientation() != t.orientation(), when << ": twins with equal orientation at he " << i);
      REQ(g, h.isInterior() || t.isInterior(), when << ": he " << i << " and its twin are both exterior");
    }
  }
  for (size_t i : F) {
    Face f = m.face(i);
    REQ(g, !f.isBoundaryLoop(), when << ": face " << i << " is a boundary loop");
    REQ(g, !f.halfedge().isDead() && f.halfedge().face() == f, when << ": f.halfedge().face() != f for face " << i);
    size_t k = 0;
    Halfedge h = f.halfedge();
    do {
      k++;
      h = h.next();
    } while (h != f.halfedge() && k <= nH);
    REQ(g, k == faceSides[i], when << ": halfedges of face " << i << " are not one cycle");
    faceSides.erase(i);
  }
  for (size_t i : B) {
    BoundaryLoop b = m.boundaryLoop(i);
    REQ(g, b.asFace().isBoundaryLoop() && b.asFace().asBoundaryLoop() == b, when << ": boundary loop " << i << " as face");
    REQ(g, !b.halfedge().isDead() && b.halfedge().face() == b.asFace(), when << ": bl.halfedge().face() for loop " << i);
    size_t k = 0;
    Halfedge h = b.halfedge();
    do {
      k++;
      h = h.next();
    } while (h != b.halfedge() && k <= nH);
    REQ(g, k == faceSides[b.asFace().getIndex()], when << ": halfedges of boundary loop " << i << " are not one cycle");
    faceSides.erase(b.asFace().getIndex());
  }
  REQ(g, faceSides.empty(), when << ": halfedges refer to a face/boundary loop that does not exist");
  for (size_t i : E) {
    Edge e = m.edge(i);
    REQ(g, !e.halfedge().isDead() && e.halfedge().edge() == e, when << ": e.halfedge().edge() for edge " << i);
    REQ(g, e.halfedge().isInterior(), when << ": e.halfedge() is exterior for edge " << i);
    if (imp) REQ(g, eH[i].size() == 2, when << ": edge " << i << " has " << eH[i].size() << " halfedges");
    REQ(g, sorted(idx(e.adjacentHalfedges())) == eH[i], when << ": adjacentHalfedges of edge " << i);
    // orientation bits agree with endpoints (when these tell)
    Halfedge h0 = e.halfedge();
    for (size_t j : eH[i]) {
      Halfedge h = m.halfedge(j);
      bool same = h.vertex() == h0.vertex() && h.tipVertex() == h0.tipVertex();
      bool opp = h.vertex() == h0.tipVertex() && h.tipVertex() == h0.vertex();
      REQ(g, same || opp, when << ": halfedges of edge " << i << " have different endpoints");
      if (h0.vertex() != h0.tipVertex())
        REQ(g, (h.orientation() == h0.orientation()) == same, when << ": orientation of he " << j << " on edge " << i);
    }
  }
  for (size_t i : V) {
    Vertex v = m.vertex(i);
    REQ(g, !v.halfedge().isDead() && v.halfedge().vertex() == v, when << ": v.halfedge().vertex() for vertex " << i);
    REQ(g, sorted(idx(v.outgoingHalfedges())) == out[i], when << ": outgoingHalfedges of vertex " << i << " misses or repeats some");
    REQ(g, sorted(idx(v.incomingHalfedges())) == in[i], when << ": incomingHalfedges of vertex " << i << " misses or repeats some");
    if (imp) {
      size_t nx = 0;
      for (size_t j : out[i]) nx += !m.halfedge(j).isInterior();
      REQ(g, nx <= 1, when << ": vertex " << i << " lies " << nx << " times on the boundary");
      if (nx) {
        REQ(g, v.halfedge().isInterior() && !v.halfedge().twin().isInterior(),
            when << ": v.halfedge() of boundary vertex " << i << " does not start its half-disk");
        REQ(g, v.isBoundary(), when << ": isBoundary of vertex " << i);
      } else
        REQ(g, !v.isBoundary(), when << ": isBoundary of vertex " << i);
    }
  }
  m.validateConnectivity();
}

// polygon lists read off by primitive navigation, with vertices numbered by iteration order
inline Polys readPolys(SurfaceMesh& m) {
  std::map<size_t, size_t> vi;
  for (size_t i = 0; i < m.vertexIndexSize(); i++)
    if (!m.vertex(i).isDead()) vi.insert({i, vi.size()});
  Polys p;
  for (size_t i = 0; i < m.faceIndexSize(); i++) {
    if (m.face(i).isDead()) continue;
    p.emplace_back();
    Halfedge h = m.face(i).halfedge();
    do {
      p.back().push_back(vi.at(h.vertex().getIndex()));
      h = h.next();
    } while (h != m.face(i).halfedge());
  }
  return p;
}

// Queries and navigators against the reference model.  The mesh's surface must be exactly `r`
// (edges identified by vertex pairs, no self edges), in iteration order.
inline void checkQueries(G& g, SurfaceMesh& m, const RefMesh& r, const std::string& when) {
  bool imp = m.usesImplicitTwin();
  REQ(g, m.nVertices() == r.nV, when << ": " << m.nVertices() << " vertices instead of " << r.nV);
  REQ(g, m.nFaces() == r.polys.size(), when << ": " << m.nFaces() << " faces instead of " << r.polys.size());
  REQ(g, m.nEdges() == r.edges.size(), when << ": " << m.nEdges() << " edges instead of " << r.edges.size());
  REQ(g, m.nInteriorHalfedges() == r.nInterior(), when << ": nInteriorHalfedges " << m.nInteriorHalfedges());
  REQ(g, m.nCorners() == r.nInterior(), when << ": nCorners");
  std::vector<Vertex> V;
  std::map<size_t, size_t> vi;
  for (Vertex v : m.vertices()) {
    vi[v.getIndex()] = V.size();
    V.push_back(v);
  }
  std::vector<Face> F;
  std::map<size_t, size_t> fi;
  for (Face f : m.faces()) {
    fi[f.getIndex()] = F.size();
    F.push_back(f);
  }
  auto vid = [&](Vertex v) { return vi.at(v.getIndex()); };
  size_t nBdyE = 0;
  // faces
  std::map<std::pair<size_t, size_t>, Halfedge> side;
  for (size_t f = 0; f < F.size(); f++) {
    auto& p = r.polys[f];
    Halfedge h = F[f].halfedge();
    for (size_t s = 0; s < p.size(); s++) {
      REQ(g, vid(h.vertex()) == p[s], when << ": face " << f << " side " << s << " starts at " << vid(h.vertex()));
      REQ(g, h.face() == F[f], when << ": he.face()");
      REQ(g, h.corner().halfedge() == h && h.corner().vertex() == h.vertex() && h.corner().face() == F[f], when << ": corner of side " << s);
      REQ(g, h.next().prevOrbitFace() == h, when << ": prevOrbitFace");
      side[{f, s}] = h;
      h = h.next();
    }
    REQ(g, h == F[f].halfedge(), when << ": face " << f << " has more sides than given");
    REQ(g, F[f].degree() == p.size(), when << ": face degree");
    REQ(g, F[f].isTriangle() == (p.size() == 3), when << ": isTriangle");
    std::vector<size_t> vs;
    for (Vertex v : F[f].adjacentVertices()) vs.push_back(vid(v));
    REQ(g, vs == p, when << ": adjacentVertices of face " << f);
    std::vector<size_t> hs, es, cs;
    for (size_t s = 0; s < p.size(); s++) {
      hs.push_back(side[{f, s}].getIndex());
      es.push_back(side[{f, s}].edge().getIndex());
      cs.push_back(side[{f, s}].corner().getIndex());
    }
    REQ(g, idx(F[f].adjacentHalfedges()) == hs, when << ": adjacentHalfedges of face " << f);
    REQ(g, idx(F[f].adjacentEdges()) == es, when << ": adjacentEdges of face " << f);
    REQ(g, idx(F[f].adjacentCorners()) == cs, when << ": adjacentCorners of face " << f);
    std::vector<size_t> nf;
    for (size_t s = 0; s < p.size(); s++)
      for (auto& o : r.edges.at(mk(p[s], p[(s + 1) % p.size()])))
        if (!(o.f == f && o.s == s)) nf.push_back(o.f);
    std::vector<size_t> got;
    for (Face o : F[f].adjacentFaces()) got.push_back(fi.at(o.getIndex()));
    REQ(g, sorted(got) == sorted(nf), when << ": adjacentFaces of face " << f << " yields " << got.size() << " faces, expected " << nf.size());
  }
  // edges
  std::map<VPair, Edge> byPair;
  for (Edge e : m.edges()) {
    VPair k = mk(vid(e.firstVertex()), vid(e.secondVertex()));
    REQ(g, r.edges.count(k) && !byPair.count(k), when << ": edge " << k.first << "-" << k.second << " does not exist or exists twice");
    byPair[k] = e;
    auto& sd = r.edges.at(k);
    REQ(g, e.degree() == sd.size(), when << ": degree of edge " << k.first << "-" << k.second << " is " << e.degree());
    REQ(g, e.isBoundary() == (sd.size() == 1), when << ": isBoundary of edge");
    REQ(g, e.isManifold() == (sd.size() <= 2), when << ": isManifold of edge");
    REQ(g, e.isOriented() == r.edgeOriented(k), when << ": isOriented of edge " << k.first << "-" << k.second);
    REQ(g, e.otherVertex(e.firstVertex()) == e.secondVertex() && e.otherVertex(e.secondVertex()) == e.firstVertex(), when << ": otherVertex");
    REQ(g, e.adjacentVertices()[0] == e.firstVertex() && e.adjacentVertices()[1] == e.secondVertex(), when << ": e.adjacentVertices");
    std::vector<size_t> wantH, wantF;
    for (auto& s : sd) {
      wantH.push_back(side.at({s.f, s.s}).getIndex());
      wantF.push_back(s.f);
      REQ(g, side.at({s.f, s.s}).edge() == e, when << ": he.edge()");
    }
    REQ(g, sorted(idx(e.adjacentInteriorHalfedges())) == sorted(wantH), when << ": adjacentInteriorHalfedges of edge");
    std::vector<size_t> got;
    for (Face f : e.adjacentFaces()) got.push_back(fi.at(f.getIndex()));
    REQ(g, sorted(got) == sorted(wantF), when << ": adjacentFaces of edge");
    nBdyE += sd.size() == 1;
    if (sd.size() == 2 && r.polys[sd[0].f].size() == 3 && r.polys[sd[1].f].size() == 3) {
      auto d = e.diamondBoundary();
      Halfedge h = e.halfedge();
      REQ(g, d[0] == h.next() && d[1] == h.next().next() && d[2] == h.sibling().next() && d[3] == h.sibling().next().next(),
          when << ": diamondBoundary");
    } else
      REQ_THROWS(g, e.diamondBoundary(), when << ": diamondBoundary of an edge without a diamond");
  }
  // orientation of halfedges along a shared edge
  for (auto& k : r.edges)
    for (auto& a : k.second)
      for (auto& b : k.second)
        REQ(g, (side.at({a.f, a.s}).orientation() == side.at({b.f, b.s}).orientation()) == (a.fwd == b.fwd), when << ": orientation()");
  REQ(g, m.nHalfedges() == (imp ? 2 * r.edges.size() : r.nInterior()), when << ": nHalfedges " << m.nHalfedges());
  REQ(g, m.nExteriorHalfedges() == (imp ? nBdyE : 0), when << ": nExteriorHalfedges " << m.nExteriorHalfedges());
  // vertices
  size_t nIntV = 0;
  for (size_t v = 0; v < r.nV; v++) {
    std::set<size_t> nb = r.neighbors(v);
    std::vector<size_t> nbv(nb.begin(), nb.end()), got, gotF, wantF, gotC, wantC, gotE, wantE, wantOut, wantIn;
    for (Vertex w : V[v].adjacentVertices()) got.push_back(vid(w));
    REQ(g, sorted(got) == nbv, when << ": adjacentVertices of vertex " << v << " yields " << got.size() << ", expected " << nbv.size());
    for (size_t w : nbv) wantE.push_back(byPair.at(mk(v, w)).getIndex());
    for (Edge e : V[v].adjacentEdges()) gotE.push_back(e.getIndex());
    REQ(g, sorted(gotE) == sorted(wantE), when << ": adjacentEdges of vertex " << v);
    for (auto& c : r.vCorners[v]) {
      wantF.push_back(c.first);
      wantC.push_back(side.at({c.first, c.second}).corner().getIndex());
    }
    for (Face f : V[v].adjacentFaces()) gotF.push_back(fi.at(f.getIndex()));
    REQ(g, sorted(gotF) == sorted(wantF), when << ": adjacentFaces of vertex " << v);
    for (Corner c : V[v].adjacentCorners()) gotC.push_back(c.getIndex());
    REQ(g, sorted(gotC) == sorted(wantC), when << ": adjacentCorners of vertex " << v);
    REQ(g, V[v].degree() == nbv.size(), when << ": degree of vertex " << v);
    REQ(g, V[v].faceDegree() == wantF.size(), when << ": faceDegree of vertex " << v);
    REQ(g, V[v].isBoundary() == r.vertexBoundary(v), when << ": isBoundary of vertex " << v);
    REQ(g, V[v].isManifold() == r.vertexManifold(v), when << ": isManifold of vertex " << v);
    bool ori = true;
    for (size_t w : nbv) ori = ori && r.edgeOriented(mk(v, w));
    REQ(g, V[v].isManifoldAndOriented() == (r.vertexManifold(v) && ori), when << ": isManifoldAndOriented of vertex " << v);
    REQ(g, V[v].corner().vertex() == V[v], when << ": v.corner()");
    nIntV += !r.vertexBoundary(v);
    // neighbourhood cycles
    size_t nOut = 0;
    Halfedge h = V[v].halfedge();
    do {
      REQ(g, h.vertex() == V[v], when << ": nextOutgoingNeighbor leaves the vertex");
      nOut++;
      h = h.nextOutgoingNeighbor();
      REQ(g, nOut <= m.nHalfedges(), when << ": nextOutgoingNeighbor does not cycle");
    } while (h != V[v].halfedge());
    REQ(g, nOut == wantF.size() + (imp && r.vertexBoundary(v) ? 1 : 0), when << ": nextOutgoingNeighbor visits " << nOut << " halfedges at vertex " << v);
  }
  // connectivity queries between vertex pairs
  for (int t = 0; t < 6; t++) {
    size_t a = g.below(r.nV), b = g.below(r.nV);
    if (a == b) continue;
    Edge e = m.connectingEdge(V[a], V[b]);
    if (r.edges.count(mk(a, b))) REQ(g, e == byPair.at(mk(a, b)), when << ": connectingEdge");
    else REQ(g, e == Edge(), when << ": connectingEdge found a nonexistent edge");
  }
  // global queries
  REQ(g, m.hasBoundary() == r.hasBoundary(), when << ": hasBoundary");
  REQ(g, m.isTriangular() == r.triangular(), when << ": isTriangular");
  REQ(g, m.isEdgeManifold() == r.edgeManifold(), when << ": isEdgeManifold");
  REQ(g, m.isManifold() == r.manifold(), when << ": isManifold");
  REQ(g, m.isOriented() == r.oriented(), when << ": isOriented");
  REQ(g, m.nInteriorVertices() == nIntV, when << ": nInteriorVertices");
  REQ(g, m.nConnectedComponents() == r.components(), when << ": nConnectedComponents " << m.nConnectedComponents() << " expected " << r.components());
  REQ(g, m.getFaceVertexList() == r.polys, when << ": getFaceVertexList");
  {
    bool uni = true;
    for (auto& p : r.polys) uni = uni && p.size() == r.polys[0].size();
    if (uni) {
      DenseMatrix<int> M = m.getFaceVertexMatrix<int>();
      REQ(g, (size_t)M.rows() == r.polys.size() && (size_t)M.cols() == r.polys[0].size(), when << ": getFaceVertexMatrix size");
      for (size_t i = 0; i < r.polys.size(); i++)
        for (size_t j = 0; j < r.polys[i].size(); j++) REQ(g, (size_t)M(i, j) == r.polys[i][j], when << ": getFaceVertexMatrix entry");
    }
    auto vs = m.getVertexManifoldStatus();
    auto vb = m.getVertexBoundaryStatus();
    for (size_t v = 0; v < r.nV; v++) {
      REQ(g, vs[V[v]] == r.vertexManifold(v), when << ": getVertexManifoldStatus");
      REQ(g, vb[V[v]] == r.vertexBoundary(v), when << ": getVertexBoundaryStatus");
    }
    auto em = m.getEdgeManifoldStatus();
    auto eo = m.getEdgeOrientedStatus();
    for (auto& k : byPair) {
      REQ(g, em[k.second] == r.edgeManifold(k.first), when << ": getEdgeManifoldStatus");
      REQ(g, eo[k.second] == r.edgeOriented(k.first), when << ": getEdgeOrientedStatus");
    }
    size_t i = 0;
    auto a = m.getVertexIndices();
    for (Vertex v : m.vertices()) REQ(g, a[v] == i++, when << ": getVertexIndices");
    i = 0;
    auto b = m.getEdgeIndices();
    for (Edge v : m.edges()) REQ(g, b[v] == i++, when << ": getEdgeIndices");
    i = 0;
    auto c = m.getFaceIndices();
    for (Face v : m.faces()) REQ(g, c[v] == i++, when << ": getFaceIndices");
    i = 0;
    auto d = m.getHalfedgeIndices();
    for (Halfedge v : m.halfedges()) REQ(g, d[v] == i++, when << ": getHalfedgeIndices");
    i = 0;
    auto e = m.getCornerIndices();
    for (Corner v : m.corners()) REQ(g, e[v] == i++, when << ": getCornerIndices");
    i = 0;
    auto iv = m.getInteriorVertexIndices();
    for (size_t v = 0; v < r.nV; v++) REQ(g, iv[V[v]] == (r.vertexBoundary(v) ? INVALID_IND : i++), when << ": getInteriorVertexIndices");
    i = 0;
    auto bi = m.getBoundaryLoopIndices();
    for (BoundaryLoop v : m.boundaryLoops()) REQ(g, bi[v] == i++, when << ": getBoundaryLoopIndices");
  }
  if (imp) {
    ManifoldSurfaceMesh& mm = dynamic_cast<ManifoldSurfaceMesh&>(m);
    auto loops = r.boundaryLoops();
    REQ(g, m.nBoundaryLoops() == loops.size(), when << ": nBoundaryLoops " << m.nBoundaryLoops() << " expected " << loops.size());
    std::vector<char> used(loops.size(), 0);
    for (BoundaryLoop b : m.boundaryLoops()) {
      std::vector<size_t> c, hv, ev, vv;
      Halfedge h = b.halfedge();
      do {
        c.push_back(vid(h.vertex()));
        hv.push_back(h.getIndex());
        ev.push_back(h.edge().getIndex());
        vv.push_back(h.vertex().getIndex());
        REQ(g, !h.isInterior() && h.face().asBoundaryLoop() == b, when << ": boundary loop halfedges");
        h = h.next();
      } while (h != b.halfedge());
      bool ok = false;
      for (size_t i = 0; i < loops.size() && !ok; i++)
        if (!used[i] && sameCycle(loops[i], c)) {
          used[i] = 1;
          ok = true;
        }
      REQ(g, ok, when << ": boundary loop is not one of the surface's boundary cycles");
      REQ(g, b.degree() == c.size(), when << ": bl.degree()");
      REQ(g, idx(b.adjacentHalfedges()) == hv, when << ": bl.adjacentHalfedges()");
      REQ(g, idx(b.adjacentEdges()) == ev, when << ": bl.adjacentEdges()");
      REQ(g, idx(b.adjacentVertices()) == vv, when << ": bl.adjacentVertices()");
    }
    int chi = (int)r.nV - (int)r.edges.size() + (int)r.polys.size();
    // the library counts the boundary loops as (capping) faces
    REQ(g, mm.eulerCharacteristic() == chi + (int)loops.size(), when << ": eulerCharacteristic " << mm.eulerCharacteristic());
    if (r.components() == 1) REQ(g, mm.genus() == (2 - (int)loops.size() - chi) / 2, when << ": genus " << mm.genus());
    for (Halfedge h : m.halfedges()) {
      REQ(g, h.nextOutgoingNeighbor() == h.twin().next(), when << ": nextOutgoingNeighbor");
      REQ(g, h.nextIncomingNeighbor() == h.next().twin(), when << ": nextIncomingNeighbor");
      REQ(g, h.next().prevOrbitVertex() == h, when << ": prevOrbitVertex");
    }
    // cyclic order of neighbours at an interior vertex is one rotation direction
  } else {
    REQ(g, m.nBoundaryLoops() == 0, when << ": general mesh with boundary loops");
  }
}

} // namespace mg
