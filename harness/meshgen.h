// Generators of polygon meshes (index lists + positions) and an independent reference model.
#pragma once
#include "pbt.h"

#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include "geometrycentral/utilities/vector3.h"

#include <algorithm>
#include <array>
#include <map>
#include <numeric>
#include <set>

namespace mg {
using namespace geometrycentral;
using namespace geometrycentral::surface;
using pbt::G;

typedef std::vector<std::vector<size_t>> Polys;

struct Soup {
  Polys polys;
  std::vector<Vector3> pos;
  std::string desc;
  size_t nV() const { return pos.size(); }
};

inline std::string str(const Polys& p) {
  std::ostringstream os;
  os << "{";
  for (size_t i = 0; i < p.size(); i++) {
    os << (i ? "," : "") << "{";
    for (size_t j = 0; j < p[i].size(); j++) os << (j ? "," : "") << p[i][j];
    os << "}";
  }
  os << "}";
  return os.str();
}

inline std::string strPos(const std::vector<Vector3>& p) {
  std::ostringstream os;
  os.precision(8);
  os << "{";
  for (size_t i = 0; i < p.size(); i++) os << (i ? "," : "") << "{" << p[i].x << "," << p[i].y << "," << p[i].z << "}";
  os << "}";
  return os.str();
}

// ---------------------------------------------------------------- reference model
typedef std::pair<size_t, size_t> VPair;
inline VPair mk(size_t a, size_t b) { return a < b ? VPair(a, b) : VPair(b, a); }

struct Side {
  size_t f, s;
  bool fwd; // goes from smaller to larger vertex index
};

struct RefMesh {
  size_t nV;
  Polys polys;
  std::map<VPair, std::vector<Side>> edges;
  std::vector<std::vector<std::pair<size_t, size_t>>> vCorners; // per vertex: (face, position)

  RefMesh(const Polys& p, size_t nV_) : nV(nV_), polys(p), vCorners(nV_) {
    for (size_t f = 0; f < p.size(); f++)
      for (size_t s = 0; s < p[f].size(); s++) {
        size_t a = p[f][s], b = p[f][(s + 1) % p[f].size()];
        edges[mk(a, b)].push_back({f, s, a < b});
        vCorners[a].push_back({f, s});
      }
  }
  size_t nInterior() const {
    size_t n = 0;
    for (auto& p : polys) n += p.size();
    return n;
  }
  bool triangular() const {
    for (auto& p : polys)
      if (p.size() != 3) return false;
    return true;
  }
  bool edgeManifold(VPair e) const { return edges.at(e).size() <= 2; }
  bool edgeManifold() const {
    for (auto& e : edges)
      if (e.second.size() > 2) return false;
    return true;
  }
  bool edgeOriented(VPair k) const {
    auto& s = edges.at(k);
    return s.size() == 1 || (s.size() == 2 && s[0].fwd != s[1].fwd);
  }
  bool oriented() const {
    for (auto& e : edges)
      if (!edgeOriented(e.first)) return false;
    return true;
  }
  bool edgeBoundary(VPair k) const { return edges.at(k).size() == 1; }
  bool vertexBoundary(size_t v) const {
    for (auto& c : vCorners[v]) {
      auto& p = polys[c.first];
      size_t n = p.size();
      if (edgeBoundary(mk(v, p[(c.second + 1) % n])) || edgeBoundary(mk(v, p[(c.second + n - 1) % n]))) return true;
    }
    return false;
  }
  bool hasBoundary() const {
    for (auto& e : edges)
      if (e.second.size() == 1) return true;
    return false;
  }
  // number of edge-connected fans of corners at a vertex
  size_t fansAt(size_t v) const {
    size_t n = vCorners[v].size();
    std::vector<size_t> par(n);
    std::iota(par.begin(), par.end(), 0);
    std::function<size_t(size_t)> find = [&](size_t x) { return par[x] == x ? x : par[x] = find(par[x]); };
    std::map<VPair, size_t> first;
    for (size_t i = 0; i < n; i++) {
      auto& p = polys[vCorners[v][i].first];
      size_t d = p.size(), s = vCorners[v][i].second;
      for (size_t o : {p[(s + 1) % d], p[(s + d - 1) % d]}) {
        VPair k = mk(v, o);
        auto it = first.find(k);
        if (it == first.end()) first[k] = i;
        else par[find(i)] = find(it->second);
      }
    }
    std::set<size_t> roots;
    for (size_t i = 0; i < n; i++) roots.insert(find(i));
    return roots.size();
  }
  bool vertexManifold(size_t v) const {
    for (auto& c : vCorners[v]) {
      auto& p = polys[c.first];
      size_t n = p.size();
      if (!edgeManifold(mk(v, p[(c.second + 1) % n])) || !edgeManifold(mk(v, p[(c.second + n - 1) % n]))) return false;
    }
    return fansAt(v) == 1;
  }
  bool manifold() const {
    if (!edgeManifold()) return false;
    for (size_t v = 0; v < nV; v++)
      if (!vertexManifold(v)) return false;
    return true;
  }
  bool manifoldOriented() const { return manifold() && oriented(); }
  size_t components() const {
    std::vector<size_t> par(nV);
    std::iota(par.begin(), par.end(), 0);
    std::function<size_t(size_t)> find = [&](size_t x) { return par[x] == x ? x : par[x] = find(par[x]); };
    for (auto& p : polys)
      for (size_t v : p) par[find(v)] = find(p[0]);
    size_t n = 0;
    for (size_t v = 0; v < nV; v++) n += find(v) == v;
    return n;
  }
  // boundary loops of a manifold oriented mesh, as cyclic vertex lists in exterior direction
  std::vector<std::vector<size_t>> boundaryLoops() const {
    std::map<size_t, size_t> nxt; // exterior halfedge: b -> a for boundary side a -> b
    for (auto& e : edges)
      if (e.second.size() == 1) {
        auto& s = e.second[0];
        size_t a = polys[s.f][s.s], b = polys[s.f][(s.s + 1) % polys[s.f].size()];
        nxt[b] = a;
      }
    std::vector<std::vector<size_t>> loops;
    while (!nxt.empty()) {
      std::vector<size_t> l;
      size_t v = nxt.begin()->first;
      while (nxt.count(v)) {
        l.push_back(v);
        size_t w = nxt[v];
        nxt.erase(v);
        v = w;
      }
      loops.push_back(l);
    }
    return loops;
  }
  std::set<size_t> neighbors(size_t v) const {
    std::set<size_t> r;
    for (auto& c : vCorners[v]) {
      auto& p = polys[c.first];
      size_t n = p.size();
      r.insert(p[(c.second + 1) % n]);
      r.insert(p[(c.second + n - 1) % n]);
    }
    return r;
  }
};

// ---------------------------------------------------------------- soup helpers
inline void compactVertices(Soup& s) {
  std::vector<char> used(s.nV(), 0);
  for (auto& p : s.polys)
    for (size_t v : p) used[v] = 1;
  std::vector<size_t> map(s.nV(), INVALID_IND);
  std::vector<Vector3> np;
  for (size_t v = 0; v < s.nV(); v++)
    if (used[v]) {
      map[v] = np.size();
      np.push_back(s.pos[v]);
    }
  for (auto& p : s.polys)
    for (size_t& v : p) v = map[v];
  s.pos = np;
}

inline Soup permuted(G& g, const Soup& s) {
  Soup r;
  std::vector<size_t> vp = g.perm(s.nV());
  r.pos.resize(s.nV());
  for (size_t i = 0; i < s.nV(); i++) r.pos[vp[i]] = s.pos[i];
  std::vector<size_t> fp = g.perm(s.polys.size());
  for (size_t i : fp) {
    std::vector<size_t> p = s.polys[i];
    for (size_t& v : p) v = vp[v];
    std::rotate(p.begin(), p.begin() + g.below(p.size()), p.end());
    r.polys.push_back(p);
  }
  r.desc = s.desc + " permuted";
  return r;
}

inline void append(Soup& a, const Soup& b, Vector3 shift) {
  size_t n = a.nV();
  for (auto& q : b.pos) a.pos.push_back(q + shift);
  for (auto p : b.polys) {
    for (size_t& v : p) v += n;
    a.polys.push_back(p);
  }
  a.desc += " + " + b.desc;
}

inline double minEdge(const Soup& s) {
  double m = 1e300;
  for (auto& p : s.polys)
    for (size_t i = 0; i < p.size(); i++) m = std::min(m, norm(s.pos[p[i]] - s.pos[p[(i + 1) % p.size()]]));
  return m;
}

inline double minTriQuality(const Soup& s) { // min over corners of sin(angle), triangles only
  double q = 1;
  for (auto& p : s.polys)
    for (size_t i = 0; i < 3; i++) {
      Vector3 a = s.pos[p[(i + 1) % 3]] - s.pos[p[i]], b = s.pos[p[(i + 2) % 3]] - s.pos[p[i]];
      double na = norm(a), nb = norm(b);
      if (!(na > 0) || !(nb > 0)) return 0;
      q = std::min(q, norm(cross(a, b)) / (na * nb));
    }
  return q;
}

// smallest corner angle over all triangles
inline double minAngle(const Soup& s) {
  double m = 10;
  for (auto& p : s.polys)
    for (size_t i = 0; i < 3; i++) {
      Vector3 a = s.pos[p[(i + 1) % 3]] - s.pos[p[i]], b = s.pos[p[(i + 2) % 3]] - s.pos[p[i]];
      m = std::min(m, std::atan2(norm(cross(a, b)), dot(a, b)));
    }
  return m;
}

// ---------------------------------------------------------------- base surfaces
inline Soup gridDisk(int m, int n) {
  Soup s;
  for (int j = 0; j <= n; j++)
    for (int i = 0; i <= m; i++) s.pos.push_back(Vector3{(double)i, (double)j, 0.});
  auto id = [&](int i, int j) { return (size_t)(j * (m + 1) + i); };
  for (int j = 0; j < n; j++)
    for (int i = 0; i < m; i++) s.polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
  s.desc = "grid" + std::to_string(m) + "x" + std::to_string(n);
  return s;
}
inline Soup torusGrid(int m, int n) {
  Soup s;
  double R = std::max(2., m / 3.), r = std::max(.7, n / 7.);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < m; i++) {
      double u = 2 * M_PI * i / m, v = 2 * M_PI * j / n;
      s.pos.push_back(Vector3{(R + r * cos(v)) * cos(u), (R + r * cos(v)) * sin(u), r * sin(v)});
    }
  auto id = [&](int i, int j) { return (size_t)((j % n) * m + (i % m)); };
  for (int j = 0; j < n; j++)
    for (int i = 0; i < m; i++) s.polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
  s.desc = "torus" + std::to_string(m) + "x" + std::to_string(n);
  return s;
}
inline Soup cylinder(int m, int n) {
  Soup s;
  double r = 1. / (2 * sin(M_PI / m));
  for (int j = 0; j <= n; j++)
    for (int i = 0; i < m; i++) {
      double u = 2 * M_PI * i / m;
      s.pos.push_back(Vector3{r * cos(u), r * sin(u), (double)j});
    }
  auto id = [&](int i, int j) { return (size_t)(j * m + (i % m)); };
  for (int j = 0; j < n; j++)
    for (int i = 0; i < m; i++) s.polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
  s.desc = "cyl" + std::to_string(m) + "x" + std::to_string(n);
  return s;
}
inline Soup bipyramid(int k) {
  Soup s;
  for (int i = 0; i < k; i++) s.pos.push_back(Vector3{cos(2 * M_PI * i / k), sin(2 * M_PI * i / k), 0});
  s.pos.push_back(Vector3{0, 0, 1});
  s.pos.push_back(Vector3{0, 0, -1});
  for (size_t i = 0; i < (size_t)k; i++) {
    s.polys.push_back({i, (i + 1) % k, (size_t)k});
    s.polys.push_back({(i + 1) % k, i, (size_t)k + 1});
  }
  s.desc = "bipyr" + std::to_string(k);
  return s;
}
inline Soup fan(int k, bool closed) {
  Soup s;
  s.pos.push_back(Vector3{0, 0, 0.3});
  int n = closed ? k : k + 1;
  double tot = closed ? 2 * M_PI : std::min(1.7 * M_PI, 1.0 * k);
  for (int i = 0; i < n; i++) s.pos.push_back(Vector3{cos(tot * i / k), sin(tot * i / k), 0});
  for (int i = 0; i < k; i++) s.polys.push_back({0, (size_t)(1 + i), (size_t)(1 + (i + 1) % n)});
  s.desc = (closed ? "wheel" : "fan") + std::to_string(k);
  return s;
}
inline Soup ngon(int k) {
  Soup s;
  s.polys.push_back({});
  for (int i = 0; i < k; i++) {
    s.pos.push_back(Vector3{cos(2 * M_PI * i / k), sin(2 * M_PI * i / k), 0});
    s.polys[0].push_back(i);
  }
  s.desc = "ngon" + std::to_string(k);
  return s;
}
inline Soup tetra() {
  Soup s;
  s.pos = {{1, 1, 1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}};
  s.polys = {{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {3, 2, 1}};
  s.desc = "tetra";
  return s;
}
inline Soup icosa() {
  Soup s;
  double p = (1 + sqrt(5.)) / 2;
  s.pos = {{-1, p, 0}, {1, p, 0}, {-1, -p, 0}, {1, -p, 0}, {0, -1, p}, {0, 1, p},
           {0, -1, -p}, {0, 1, -p}, {p, 0, -1}, {p, 0, 1}, {-p, 0, -1}, {-p, 0, 1}};
  s.polys = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8},
             {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
  s.desc = "icosa";
  return s;
}
// boundary of a set of unit cubes
inline Soup voxels(const std::set<std::array<int, 3>>& c) {
  Soup s;
  std::map<std::array<int, 3>, size_t> vid;
  auto V = [&](int x, int y, int z) {
    auto it = vid.find({x, y, z});
    if (it != vid.end()) return it->second;
    size_t i = s.pos.size();
    s.pos.push_back(Vector3{(double)x, (double)y, (double)z});
    vid[{x, y, z}] = i;
    return i;
  };
  static const int D[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  static const int Q[6][4][3] = {{{1, 0, 0}, {1, 1, 0}, {1, 1, 1}, {1, 0, 1}}, {{0, 0, 0}, {0, 0, 1}, {0, 1, 1}, {0, 1, 0}},
                                 {{0, 1, 0}, {0, 1, 1}, {1, 1, 1}, {1, 1, 0}}, {{0, 0, 0}, {1, 0, 0}, {1, 0, 1}, {0, 0, 1}},
                                 {{0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}, {{0, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}}};
  for (auto& v : c)
    for (int d = 0; d < 6; d++) {
      if (c.count({v[0] + D[d][0], v[1] + D[d][1], v[2] + D[d][2]})) continue;
      std::vector<size_t> q;
      for (int k = 0; k < 4; k++) q.push_back(V(v[0] + Q[d][k][0], v[1] + Q[d][k][1], v[2] + Q[d][k][2]));
      s.polys.push_back(q);
    }
  s.desc = "vox" + std::to_string(c.size());
  return s;
}
inline Soup plateWithHoles(int holes) {
  std::set<std::array<int, 3>> c;
  for (int x = 0; x < 2 * holes + 1; x++)
    for (int y = 0; y < 3; y++)
      if (!(x % 2 == 1 && y == 1)) c.insert({x, y, 0});
  Soup s = voxels(c);
  s.desc = "genus" + std::to_string(holes);
  return s;
}

// ---------------------------------------------------------------- soup edits (all keep the surface manifold & oriented)
inline void triangulateAll(G& g, Soup& s) {
  Polys out;
  for (auto& p : s.polys) {
    std::vector<size_t> q = p;
    while (q.size() > 3) {
      size_t i = g.below(q.size());
      size_t n = q.size();
      out.push_back({q[i], q[(i + 1) % n], q[(i + 2) % n]});
      q.erase(q.begin() + (i + 1) % n);
    }
    out.push_back(q);
  }
  s.polys = out;
}
// all quads along a chosen diagonal (keeps simplicial)
inline bool simplicial(const RefMesh& r) {
  // edges are vertex pairs by construction; a simplicial complex has <= 2 faces per pair and no face repeated
  std::set<std::vector<size_t>> seen;
  for (auto p : r.polys) {
    std::sort(p.begin(), p.end());
    if (std::unique(p.begin(), p.end()) != p.end()) return false;
    if (!seen.insert(p).second) return false;
  }
  return true;
}

inline bool tryReplace(Soup& s, const Polys& np) {
  Soup t = s;
  t.polys = np;
  RefMesh r(np, t.nV());
  for (size_t v = 0; v < t.nV(); v++)
    if (r.vCorners[v].empty()) return false;
  if (!r.manifoldOriented()) return false;
  s.polys = np;
  return true;
}

inline void splitFace(Soup& s, size_t f) {
  std::vector<size_t> p = s.polys[f];
  Vector3 c{0, 0, 0};
  for (size_t v : p) c += s.pos[v];
  c /= (double)p.size();
  size_t nv = s.nV();
  s.pos.push_back(c);
  s.polys[f] = {p[0], p[1], nv};
  for (size_t i = 1; i < p.size(); i++) s.polys.push_back({p[i], p[(i + 1) % p.size()], nv});
}
inline void splitEdge(Soup& s, size_t f, size_t side) { // triangle faces only
  size_t a = s.polys[f][side], b = s.polys[f][(side + 1) % s.polys[f].size()];
  size_t nv = s.nV();
  s.pos.push_back((s.pos[a] + s.pos[b]) / 2.);
  Polys out;
  for (auto& p : s.polys) {
    bool done = false;
    for (size_t i = 0; i < p.size(); i++) {
      size_t x = p[i], y = p[(i + 1) % p.size()];
      if ((x == a && y == b) || (x == b && y == a)) {
        std::vector<size_t> q = p;
        std::rotate(q.begin(), q.begin() + i, q.end()); // q[0]=x q[1]=y
        if (q.size() == 3) {
          out.push_back({q[0], nv, q[2]});
          out.push_back({nv, q[1], q[2]});
        } else {
          q.insert(q.begin() + 1, nv);
          out.push_back(q);
        }
        done = true;
        break;
      }
    }
    if (!done) out.push_back(p);
  }
  s.polys = out;
}
inline bool flipEdge(Soup& s, size_t f, size_t side) {
  if (s.polys[f].size() != 3) return false;
  size_t a = s.polys[f][side], b = s.polys[f][(side + 1) % 3], c = s.polys[f][(side + 2) % 3];
  for (size_t h = 0; h < s.polys.size(); h++) {
    if (h == f || s.polys[h].size() != 3) continue;
    for (size_t k = 0; k < 3; k++)
      if (s.polys[h][k] == b && s.polys[h][(k + 1) % 3] == a) {
        size_t d = s.polys[h][(k + 2) % 3];
        RefMesh r(s.polys, s.nV());
        if (c == d || r.edges.count(mk(c, d))) return false;
        s.polys[f] = {c, a, d};
        s.polys[h] = {d, b, c};
        return true;
      }
  }
  return false;
}
inline bool removeFace(Soup& s, size_t f) {
  if (s.polys.size() <= 1) return false;
  Soup t = s;
  t.polys.erase(t.polys.begin() + f);
  compactVertices(t);
  RefMesh r(t.polys, t.nV());
  if (!r.manifoldOriented()) return false;
  s = t;
  return true;
}
// merge the two faces at a side into one polygon, if the result is still a plain polygon mesh
inline bool mergeFaces(Soup& s, size_t f, size_t side) {
  auto& p = s.polys[f];
  size_t a = p[side], b = p[(side + 1) % p.size()];
  for (size_t h = 0; h < s.polys.size(); h++) {
    if (h == f) continue;
    auto& q = s.polys[h];
    for (size_t k = 0; k < q.size(); k++)
      if (q[k] == b && q[(k + 1) % q.size()] == a) {
        std::vector<size_t> m = p;
        std::rotate(m.begin(), m.begin() + (side + 1) % p.size(), m.end()); // b ... a
        for (size_t i = 2; i < q.size(); i++) m.push_back(q[(k + i) % q.size()]);
        std::vector<size_t> u = m;
        std::sort(u.begin(), u.end());
        if (std::unique(u.begin(), u.end()) != u.end()) return false;
        Polys np = s.polys;
        np[f] = m;
        np.erase(np.begin() + h);
        return tryReplace(s, np);
      }
  }
  return false;
}

struct GenOpts {
  bool tri = false;        // triangle meshes only
  bool closed = false;     // no boundary
  bool multi = true;       // may have several components
  bool permute = true;
  bool simplicialOnly = true; // (always true today: polygon lists)
  int maxFaces = 60;
  int size = 4;            // scale of the base surfaces
  int edits = 6;           // max number of random edits
  bool disk = false;       // topological disk
  bool sphere = false;     // topological sphere
  double jitter = 0.12;    // position noise relative to the shortest edge
  double bend = 0.6;       // amplitude of the smooth bending of the disk-like surfaces
  bool orientedFlip = true;
};

inline Soup baseManifold(G& g, const GenOpts& o) {
  int S = std::max(2, o.size);
  if (o.sphere) {
    switch (g.weighted({2, 3, 2, 3})) {
    case 0: return tetra();
    case 1: return bipyramid(g.range(3, 7));
    case 2: return icosa();
    default: {
      std::set<std::array<int, 3>> c;
      int x = g.range(1, std::min(3, S)), y = g.range(1, 2), z = g.range(1, 2);
      for (int i = 0; i < x; i++)
        for (int j = 0; j < y; j++)
          for (int k = 0; k < z; k++) c.insert({i, j, k});
      return voxels(c);
    }
    }
  }
  if (o.disk) {
    switch (g.weighted({4, 2, 2, 1})) {
    case 0: return gridDisk(g.range(1, S), g.range(1, S));
    case 1: return fan(g.range(3, 8), true);
    case 2: return fan(g.range(1, 6), false);
    default: return ngon(g.range(3, 6));
    }
  }
  if (o.closed) {
    switch (g.weighted({2, 3, 2, 4, 3, 2})) {
    case 0: return tetra();
    case 1: return bipyramid(g.range(3, 7));
    case 2: return icosa();
    case 3: return torusGrid(g.range(3, 3 + S / 2), g.range(3, 3 + S / 2));
    case 4: {
      std::set<std::array<int, 3>> c;
      int x = g.range(1, std::min(3, S)), y = g.range(1, 2), z = g.range(1, 2);
      for (int i = 0; i < x; i++)
        for (int j = 0; j < y; j++)
          for (int k = 0; k < z; k++) c.insert({i, j, k});
      return voxels(c);
    }
    default: return plateWithHoles(g.range(1, 2));
    }
  }
  switch (g.weighted({5, 2, 2, 1, 3, 2, 2, 2, 3, 1, 1})) {
  case 0: return gridDisk(g.range(1, S), g.range(1, S));
  case 1: return fan(g.range(3, 8), true);
  case 2: return fan(g.range(1, 6), false);
  case 3: return ngon(g.range(3, 7));
  case 4: return cylinder(g.range(3, 3 + S), g.range(1, S));
  case 5: return tetra();
  case 6: return bipyramid(g.range(3, 7));
  case 7: return icosa();
  case 8: return torusGrid(g.range(3, 3 + S / 2), g.range(3, 3 + S / 2));
  case 9: {
    std::set<std::array<int, 3>> c;
    int x = g.range(1, 3), y = g.range(1, 2), z = g.range(1, 2);
    for (int i = 0; i < x; i++)
      for (int j = 0; j < y; j++)
        for (int k = 0; k < z; k++) c.insert({i, j, k});
    return voxels(c);
  }
  default: return plateWithHoles(g.range(1, 2));
  }
}

inline void bendAndJitter(G& g, Soup& s, const GenOpts& o) {
  if (o.bend > 0 && g.chance(.7)) {
    double a = g.real(0, o.bend), fx = g.real(.2, 1.1), fy = g.real(.2, 1.1), ph = g.real(0, 6);
    for (auto& p : s.pos) {
      double w = a * sin(fx * p.x + ph) * cos(fy * p.y);
      p += Vector3{.3 * a * sin(fy * p.z + ph), 0.2 * a * cos(fx * p.z), w};
    }
  }
  if (o.jitter > 0 && g.chance(.8)) {
    double h = minEdge(s) * o.jitter;
    for (auto& p : s.pos) p += Vector3{g.jitter(h), g.jitter(h), g.jitter(h)};
  }
}

inline Soup genManifold(G& g, const GenOpts& o) {
  Soup s = baseManifold(g, o);
  if (o.multi && g.chance(.15)) {
    GenOpts o2 = o;
    o2.size = 2;
    append(s, baseManifold(g, o2), Vector3{20, 0, 0});
  }
  if (o.tri || g.chance(.4)) {
    // along consistent diagonals first; random ear order where that stays simplicial
    Soup t = s;
    triangulateAll(g, t);
    if (simplicial(RefMesh(t.polys, t.nV())) && RefMesh(t.polys, t.nV()).manifoldOriented()) s = t;
    else {
      Polys out;
      for (auto& p : s.polys)
        for (size_t i = 1; i + 1 < p.size(); i++) out.push_back({p[0], p[i], p[i + 1]});
      s.polys = out;
      if (!RefMesh(s.polys, s.nV()).manifoldOriented() || !simplicial(RefMesh(s.polys, s.nV()))) g.discard();
    }
  }
  int ne = o.edits > 0 ? g.range(0, o.edits) : 0;
  for (int i = 0; i < ne; i++) {
    size_t f = g.below(s.polys.size());
    size_t sd = g.below(s.polys[f].size());
    switch (g.weighted({4, (int)s.polys.size() < o.maxFaces ? 3 : 0, (int)s.polys.size() < o.maxFaces ? 3 : 0,
                        (o.closed || o.disk || o.sphere) ? 0 : 3, o.tri ? 0 : 3})) {
    case 0: flipEdge(s, f, sd); break;
    case 1: splitFace(s, f); break;
    case 2: splitEdge(s, f, sd); break;
    case 3: removeFace(s, f); break;
    default: mergeFaces(s, f, sd);
    }
  }
  if ((int)s.polys.size() > 4 * o.maxFaces) g.discard();
  bendAndJitter(g, s, o);
  if (o.orientedFlip && g.chance(.2))
    for (auto& p : s.polys) std::reverse(p.begin(), p.end());
  if (o.permute && g.chance(.6)) s = permuted(g, s);
  return s;
}

// triangle mesh whose corner angles are all >= minAng (radians)
inline Soup genTri(G& g, GenOpts o, double minAng = 0.12) {
  o.tri = true;
  Soup s = genManifold(g, o);
  if (minAngle(s) < minAng) {
    // regularise: drop the noise by retrying the vertices towards neighbourhood averages
    g.label("low quality discarded");
    g.discard();
  }
  return s;
}

// arbitrary polygon soup: possibly nonmanifold / unoriented / disconnected
inline Soup genGeneral(G& g, int maxF, bool tri) {
  Soup s;
  if (g.chance(.5)) {
    // a manifold surface, damaged
    GenOpts o;
    o.tri = tri;
    o.size = 3;
    o.edits = 3;
    s = genManifold(g, o);
    int k = g.range(0, 4);
    for (int i = 0; i < k; i++) {
      size_t f = g.below(s.polys.size());
      switch (g.below(4)) {
      case 0: std::reverse(s.polys[f].begin(), s.polys[f].end()); break;
      case 1: { // extra face along an existing side
        size_t sd = g.below(s.polys[f].size());
        size_t a = s.polys[f][sd], b = s.polys[f][(sd + 1) % s.polys[f].size()];
        s.pos.push_back(s.pos[a] + Vector3{0, 0.3, 1});
        std::vector<size_t> q{a, b, s.nV() - 1};
        if (g.coin()) std::reverse(q.begin(), q.end());
        s.polys.push_back(q);
        break;
      }
      case 2: { // identify two vertices that share no face
        size_t a = g.below(s.nV()), b = g.below(s.nV());
        bool ok = a != b;
        for (auto& p : s.polys)
          if (std::count(p.begin(), p.end(), a) && std::count(p.begin(), p.end(), b)) ok = false;
        if (ok) {
          for (auto& p : s.polys)
            for (size_t& v : p)
              if (v == b) v = a;
          compactVertices(s);
        }
        break;
      }
      default: { // duplicate a face
        std::vector<size_t> q = s.polys[f];
        if (g.coin()) std::reverse(q.begin(), q.end());
        s.polys.push_back(q);
      }
      }
    }
    s.desc += " damaged";
  } else {
    int nv = g.range(3, 9);
    int nf = g.range(1, maxF);
    for (int i = 0; i < nv; i++) s.pos.push_back(Vector3{g.jitter(2), g.jitter(2), g.jitter(2)});
    for (int i = 0; i < nf; i++) {
      int d = tri ? 3 : g.range(3, std::min(5, nv));
      std::vector<size_t> all = g.perm(nv);
      all.resize(d);
      s.polys.push_back(all);
    }
    compactVertices(s);
    s.desc = "soup";
  }
  return s;
}

inline bool sameCycle(const std::vector<size_t>& a, const std::vector<size_t>& b) {
  if (a.size() != b.size()) return false;
  for (size_t r = 0; r < a.size(); r++) {
    bool ok = true;
    for (size_t i = 0; i < a.size() && ok; i++) ok = a[i] == b[(i + r) % b.size()];
    if (ok) return true;
  }
  return a.empty();
}

} // namespace mg
