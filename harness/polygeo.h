// Generated polygon meshes with reliable normals
#pragma once
#include "geomutil.h"
#include <Eigen/Dense>

namespace mg {

typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> M;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> Vx;
typedef Eigen::Matrix<LD, 3, 1> V3;

inline M posOf(Geo& w, Face f) {
  M X(f.degree(), 3);
  int i = 0;
  for (Vertex v : f.adjacentVertices()) {
    for (int k = 0; k < 3; k++) X(i, k) = w.pos[v][k];
    i++;
  }
  return X;
}
inline V3 vecArea2(const M& X) { // twice the vector area
  V3 s = V3::Zero();
  V3 x0 = X.row(0);
  for (int i = 1; i + 1 < X.rows(); i++) {
    V3 a = V3(X.row(i)) - x0, b = V3(X.row(i + 1)) - x0;
    s += a.cross(b);
  }
  return s;
}
inline LD perimeter(const M& X) {
  LD s = 0;
  for (int i = 0; i < X.rows(); i++) s += (X.row((i + 1) % X.rows()) - X.row(i)).norm();
  return s;
}

// discards meshes with faces without a reliable normal; the largest degree
inline int needFaces(G& g, Geo& w) {
  int deg = 3;
  for (Face f : w.mesh->faces()) {
    M X = posOf(w, f);
    deg = std::max(deg, (int)f.degree());
    LD per = perimeter(X);
    for (int i = 0; i < X.rows(); i++)
      if ((X.row((i + 1) % X.rows()) - X.row(i)).norm() < 1e-3 * per || per < 1e-9) g.discard();
    if (vecArea2(X).norm() < 2e-2 * per * per) g.discard(); // no reliable normal
  }
  return deg;
}

inline Geo genPolyGeo(G& g, bool general, bool flat, int maxExp, int maxFaces = 40) {
  Geo w;
  if (general) {
    Soup s = genGeneral(g, 10, false);
    w.scale = similarity(g, s.pos, maxExp);
    w.mesh.reset(new SurfaceMesh(s.polys));
    w.pos = VertexData<Vector3>(*w.mesh);
    for (size_t i = 0; i < s.nV(); i++) w.pos[w.mesh->vertex(i)] = s.pos[i];
    w.vpg.reset(new VertexPositionGeometry(*w.mesh, w.pos));
    g.note(s.desc, " ", str(s.polys), " scale=", w.scale);
    if (w.mesh->nFaces() > 2) g.nontrivial();
  } else {
    GenOpts o;
    o.maxFaces = maxFaces;
    if (flat) {
      o.disk = true;
      o.bend = 0;
    }
    Soup s = genManifold(g, o);
    if (flat) {
      for (auto& p : s.pos) p.z = 0;
      LD sgn = 0;
      for (auto& p : s.polys) {
        M X(p.size(), 3);
        for (size_t i = 0; i < p.size(); i++) X.row(i) << s.pos[p[i]].x, s.pos[p[i]].y, 0;
        LD a = vecArea2(X)(2);
        if (sgn == 0) sgn = a;
        if (a * sgn <= 0) g.discard(); // an inverted polygon
      }
    }
    w = makeManifoldGeo(g, s, false, .1, maxExp);
  }
  int deg = needFaces(g, w);
  g.label(deg == 3 ? "triangles only" : deg == 4 ? "quads" : "larger polygons");
  g.label(general ? "general mesh" : flat ? "planar mesh" : "manifold mesh");
  return w;
}

// discards meshes whose vertex tangent frames are not well defined
inline void needFrames(G& g, Geo& w) {
  SurfaceMesh& m = *w.mesh;
  VertexPositionGeometry& geo = *w.vpg;
  geo.requireVertexNormals();
  for (Face f : m.faces()) { // frames must be well defined
    V3 qN = vecArea2(posOf(w, f)) / 2;
    LD qA = qN.norm();
    qN /= qA;
    for (Vertex v : f.adjacentVertices()) {
      Vector3 n = geo.vertexNormals[v];
      if (!(std::fabs(norm(n) - 1) < 1e-6)) g.discard();
      if (qN(0) * n.x + qN(1) * n.y + qN(2) * n.z < -.9) g.discard();
    }
  }
  for (Vertex v : m.vertices()) { // the x axis must be well defined, and the sums behind the normals well conditioned
    V3L s, e = V3L(w.pos[v.halfedge().tipVertex()]) - V3L(w.pos[v]);
    if (v.halfedge().vertex() != v) e = V3L(w.pos[v.halfedge().tailVertex()]) - V3L(w.pos[v]);
    LD a = 0;
    V3L N = geo.vertexNormals[v];
    if (norm(e - N * dot(e, N)) < .1 * norm(e)) g.discard();
    for (Face f : v.adjacentFaces()) {
      V3 qN = vecArea2(posOf(w, f)) / 2;
    LD qA = qN.norm();
    qN /= qA;
      s = s + V3L(qN(0), qN(1), qN(2)) * qA;
      a += qA;
    }
    if (norm(s) < .05 * a) g.discard();
  }
}

} // namespace mg
