// Geometry generators and an independent (long double) oracle of the metric of a triangle mesh.
#pragma once
#include "mutate.h"

#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"

#include <complex>

namespace mg {

typedef long double LD;
typedef std::complex<LD> LC;
static const LD LPI = 3.141592653589793238462643383279502884L;

struct V3L {
  LD x = 0, y = 0, z = 0;
  V3L() {}
  V3L(LD a, LD b, LD c) : x(a), y(b), z(c) {}
  V3L(Vector3 v) : x(v.x), y(v.y), z(v.z) {}
  V3L operator+(V3L o) const { return {x + o.x, y + o.y, z + o.z}; }
  V3L operator-(V3L o) const { return {x - o.x, y - o.y, z - o.z}; }
  V3L operator*(LD s) const { return {x * s, y * s, z * s}; }
};
inline LD dot(V3L a, V3L b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3L cross(V3L a, V3L b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline LD norm(V3L a) { return sqrtl(dot(a, a)); }
inline V3L unit(V3L a) { return a * (1 / norm(a)); }
inline Vector3 dbl(V3L a) { return Vector3{(double)a.x, (double)a.y, (double)a.z}; }

// ---------------------------------------------------------------- generation
struct Geo {
  std::unique_ptr<SurfaceMesh> mesh;
  ManifoldSurfaceMesh* man = nullptr; // == mesh.get() when it is a ManifoldSurfaceMesh
  VertexData<Vector3> pos;
  std::unique_ptr<VertexPositionGeometry> vpg;
  std::string desc;
  double scale = 1;
};

inline Vector3 randDir(G& g) {
  double z = g.real(-1, 1), a = g.real(0, 6.2831853);
  double r = std::sqrt(std::max(0., 1 - z * z));
  return Vector3{r * cos(a), r * sin(a), z};
}

// random similarity; the identity is simplest
inline double similarity(G& g, std::vector<Vector3>& pos, int maxExp = 5) {
  double scale = 1;
  if (g.chance(.6)) {
    Vector3 ax = randDir(g);
    double an = g.real(0, 6.28);
    for (auto& p : pos) p = p.rotateAround(ax, an);
  }
  if (g.chance(.4)) {
    double k = g.jitter(maxExp);
    scale = std::pow(10., k);
    for (auto& p : pos) p *= scale;
  }
  if (g.chance(.4)) {
    Vector3 t{g.jitter(3 * scale), g.jitter(3 * scale), g.jitter(3 * scale)};
    for (auto& p : pos) p += t;
  }
  return scale;
}

inline Soup soupOf(SurfaceMesh& m, const VertexData<Vector3>& pos) {
  Soup s;
  VertexData<size_t> ind = m.getVertexIndices();
  for (Vertex v : m.vertices()) s.pos.push_back(pos[v]);
  for (Face f : m.faces()) {
    std::vector<size_t> p;
    for (Vertex v : f.adjacentVertices()) p.push_back(ind[v]);
    s.polys.push_back(p);
  }
  return s;
}

// a few local edits which leave gaps in the index space; positions stay reasonable
inline void makeGaps(G& g, Geo& w, int k, double minAng) {
  for (int i = 0; i < k; i++) {
    std::unique_ptr<SurfaceMesh> keep = w.man->copy();
    VertexData<Vector3> keepPos = w.pos.reinterpretTo(*keep);
    ManifoldSurfaceMesh& m = *w.man;
    int op = (int)g.below(4);
    if (op == 0) {
      Edge e = pickEdge(g, m);
      Vector3 mid = (w.pos[e.firstVertex()] + w.pos[e.secondVertex()]) / 2;
      Vertex v = m.collapseEdgeTriangular(e);
      if (v != Vertex()) w.pos[v] = mid;
    } else if (op == 1) {
      Face f = pickFace(g, m);
      Vector3 c{0, 0, 0};
      for (Vertex v : f.adjacentVertices()) c += w.pos[v] / 3;
      Vertex v = m.insertVertex(f);
      w.pos[v] = c;
      if (g.coin()) m.removeVertex(v);
    } else if (op == 2) {
      Edge e = pickEdge(g, m);
      Vector3 mid = (w.pos[e.firstVertex()] + w.pos[e.secondVertex()]) / 2;
      w.pos[m.splitEdgeTriangular(e).vertex()] = mid;
    } else
      m.flip(pickEdge(g, m));
    Soup s = soupOf(m, w.pos);
    RefMesh r(s.polys, s.nV());
    if (!r.triangular() || !simplicial(r) || !r.manifoldOriented() || minAngle(s) < minAng) {
      w.pos = VertexData<Vector3>();
      w.mesh = std::move(keep);
      w.man = static_cast<ManifoldSurfaceMesh*>(w.mesh.get());
      w.pos = keepPos;
    } else
      g.label("index gaps");
  }
}

inline Geo makeManifoldGeo(G& g, Soup s, bool gaps = true, double minAng = .1, int maxExp = 5) {
  Geo w;
  w.scale = similarity(g, s.pos, maxExp);
  w.man = new ManifoldSurfaceMesh(s.polys);
  w.mesh.reset(w.man);
  w.pos = VertexData<Vector3>(*w.mesh);
  for (size_t i = 0; i < s.nV(); i++) w.pos[w.mesh->vertex(i)] = s.pos[i];
  if (gaps && g.chance(.3)) makeGaps(g, w, g.range(1, 4), minAng);
  w.vpg.reset(new VertexPositionGeometry(*w.mesh, w.pos));
  w.desc = s.desc;
  g.note(s.desc, " F=", w.mesh->nFaces(), " V=", w.mesh->nVertices(), " bl=", w.man->nBoundaryLoops(), " scale=", w.scale);
  g.label(w.man->nBoundaryLoops() ? "boundary" : "closed");
  if (w.mesh->nFaces() > 4) g.nontrivial();
  return w;
}

inline Geo genTriGeo(G& g, GenOpts o = GenOpts(), bool gaps = true, double minAng = .12, int maxExp = 5) {
  return makeManifoldGeo(g, genTri(g, o, minAng), gaps, minAng * .8, maxExp);
}

inline Geo genGeneralTriGeo(G& g, int maxF = 12, double minAng = .04, int maxExp = 5) {
  Soup s = genGeneral(g, maxF, true);
  if (minAngle(s) < minAng) g.discard();
  Geo w;
  w.scale = similarity(g, s.pos, maxExp);
  w.mesh.reset(new SurfaceMesh(s.polys));
  w.pos = VertexData<Vector3>(*w.mesh);
  for (size_t i = 0; i < s.nV(); i++) w.pos[w.mesh->vertex(i)] = s.pos[i];
  w.vpg.reset(new VertexPositionGeometry(*w.mesh, w.pos));
  g.note(s.desc, " ", str(s.polys), " scale=", w.scale);
  RefMesh r(s.polys, s.nV());
  g.label(r.manifoldOriented() ? "general: manifold" : "general: not manifold");
  if (w.mesh->nFaces() > 2) g.nontrivial();
  return w;
}

// ---------------------------------------------------------------- oracle
struct TriOracle {
  SurfaceMesh& m;
  std::vector<LD> len, ang, cot, area, angSum, scaled, phi; // by raw element index; ang/cot/scaled/phi by halfedge
  std::vector<size_t> vi, ei, fi;                            // dense indices by raw index
  std::vector<bool> vb;
  template <typename F>
  TriOracle(SurfaceMesh& m_, F lenOf) : m(m_) {
    size_t nh = m.nHalfedgesCapacity();
    len.assign(m.nEdgesCapacity(), 0);
    ang.assign(nh, 0);
    cot.assign(nh, 0);
    scaled.assign(nh, 0);
    phi.assign(nh, 0);
    area.assign(m.nFacesCapacity() + 1, 0);
    angSum.assign(m.nVerticesCapacity(), 0);
    vb.assign(m.nVerticesCapacity(), false);
    for (Edge e : m.edges()) len[e.getIndex()] = lenOf(e);
    for (Face f : m.faces()) {
      Halfedge h[3];
      h[0] = f.halfedge();
      h[1] = h[0].next();
      h[2] = h[1].next();
      LD l[3];
      for (int i = 0; i < 3; i++) l[i] = len[h[i].edge().getIndex()];
      LD a = l[0], b = l[1], c = l[2];
      if (a < b) std::swap(a, b);
      if (a < c) std::swap(a, c);
      if (b < c) std::swap(b, c);
      LD A = sqrtl(fmaxl(0.L, (a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c)))) / 4; // Kahan
      area[f.getIndex()] = A;
      for (int i = 0; i < 3; i++) { // corner at tail of h[i]: adjacent l[i], l[i+2], opposite l[i+1]
        LD p = l[i], q = l[(i + 2) % 3], o = l[(i + 1) % 3];
        LD cs2 = p * p + q * q - o * o; // 2 p q cos
        ang[h[i].getIndex()] = atan2l(4 * A, cs2);
        cot[h[(i + 1) % 3].getIndex()] = cs2 / (4 * A);
      }
      for (int i = 0; i < 3; i++) angSum[h[i].vertex().getIndex()] += ang[h[i].getIndex()];
    }
    for (Vertex v : m.vertices()) vb[v.getIndex()] = v.isBoundary();
    for (Face f : m.faces())
      for (Halfedge h : f.adjacentHalfedges()) {
        size_t v = h.vertex().getIndex();
        scaled[h.getIndex()] = ang[h.getIndex()] * (vb[v] ? LPI : 2 * LPI) / angSum[v];
      }
    if (m.usesImplicitTwin())
      for (Vertex v : m.vertices()) {
        LD s = 0;
        Halfedge h = v.halfedge();
        do {
          phi[h.getIndex()] = s;
          if (!h.isInterior()) break;
          s += scaled[h.getIndex()];
          h = h.next().next().twin();
        } while (h != v.halfedge());
      }
    size_t k = 0;
    vi.assign(m.nVerticesCapacity(), 0);
    for (Vertex v : m.vertices()) vi[v.getIndex()] = k++;
    k = 0;
    ei.assign(m.nEdgesCapacity(), 0);
    for (Edge e : m.edges()) ei[e.getIndex()] = k++;
    k = 0;
    fi.assign(m.nFacesCapacity() + 1, 0);
    for (Face f : m.faces()) fi[f.getIndex()] = k++;
  }
  LD L(Edge e) const { return len[e.getIndex()]; }
  LD A(Face f) const { return area[f.getIndex()]; }
  // coordinates of the halfedge in the frame of its face (x axis along face.halfedge())
  LC vecInFace(Halfedge he) const {
    Halfedge h = he.face().halfedge();
    LD dir = 0;
    while (h != he) {
      dir += LPI - ang[h.next().getIndex()];
      h = h.next();
    }
    return std::polar(L(he.edge()), dir);
  }
  LC vecInVertex(Halfedge h) const { return std::polar(L(h.edge()), phi[h.getIndex()]); }
  LC along(Halfedge h) const { // rotation from the frame at tail to the frame at tip
    LC r = -vecInVertex(h.twin()) / vecInVertex(h);
    return r / std::abs(r);
  }
  LC across(Halfedge h) const {
    LC r = -vecInFace(h.twin()) / vecInFace(h);
    return r / std::abs(r);
  }
  LD totalArea() const {
    LD s = 0;
    for (Face f : m.faces()) s += A(f);
    return s;
  }
};

inline TriOracle oracleOf(SurfaceMesh& m, const VertexData<Vector3>& pos) {
  return TriOracle(m, [&](Edge e) { return norm(V3L(pos[e.firstVertex()]) - V3L(pos[e.secondVertex()])); });
}
inline TriOracle oracleOf(SurfaceMesh& m, const EdgeData<double>& l) {
  return TriOracle(m, [&](Edge e) { return (LD)l[e]; });
}

// ---------------------------------------------------------------- sparse matrices
typedef std::map<std::pair<size_t, size_t>, LC> Sp;
inline void add(Sp& s, size_t i, size_t j, LC v) { s[{i, j}] += v; }

template <typename T>
void cmpSparse(G& g, const Eigen::SparseMatrix<T>& M, const Sp& want, size_t rows, size_t cols, double tol,
               const std::string& what) {
  REQ(g, (size_t)M.rows() == rows && (size_t)M.cols() == cols,
      what << ": size " << M.rows() << "x" << M.cols() << ", expected " << rows << "x" << cols);
  LD sc = 0;
  for (auto& w : want) sc = std::max(sc, std::abs(w.second));
  Sp have;
  for (int k = 0; k < M.outerSize(); k++)
    for (typename Eigen::SparseMatrix<T>::InnerIterator it(M, k); it; ++it) {
      std::complex<double> v = it.value();
      have[{(size_t)it.row(), (size_t)it.col()}] += LC(v.real(), v.imag());
    }
  std::set<std::pair<size_t, size_t>> keys;
  for (auto& w : want) keys.insert(w.first);
  for (auto& w : have) keys.insert(w.first);
  for (auto& k : keys) {
    LC a = have.count(k) ? have[k] : LC(0), b = want.count(k) ? want.at(k) : LC(0);
    if (!(std::abs(a - b) <= tol * sc)) {
      std::ostringstream os;
      os.precision(15);
      os << what << "(" << k.first << "," << k.second << ") = " << (double)a.real() << (double)a.imag() << "i, expected "
         << (double)b.real() << "+" << (double)b.imag() << "i (scale " << (double)sc << ")";
      g.fail(os.str());
    }
  }
}

} // namespace mg
