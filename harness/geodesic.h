// exact polyhedral distances by brute force: visibility windows unfolded through every face sequence, in long double
#pragma once
#include "pointutil.h"
#include <functional>
#include <set>

namespace mg {

struct Arrival {
  LD dist;    // distance from the source through which the path comes
  Face f;     // face in which the last leg ends
  LC dir;     // direction of travel there, in the frame of the face
  size_t src; // source
};

struct GeoOracle {
  const TriOracle& o;
  SurfaceMesh& m;
  std::vector<SurfacePoint> pts;                // nodes: sources, pseudo-source vertices, queries
  std::vector<std::vector<std::pair<size_t, Vector3>>> inFace; // by raw face: nodes with barycentric coordinates
  std::vector<size_t> vnode;                    // node of a vertex by raw index (or none)
  size_t windows = 0;
  bool exhausted = false;
  struct Leg {
    size_t to;
    LD len;
    Face f;
    LC dir;
  };
  std::vector<Leg> legs;

  GeoOracle(const TriOracle& o_, SurfaceMesh& m_) : o(o_), m(m_) {
    inFace.resize(m.nFacesCapacity());
    vnode.assign(m.nVerticesCapacity(), INVALID_IND);
  }
  static Vector3 unitBary(int i) { return Vector3{i == 0 ? 1. : 0., i == 1 ? 1. : 0., i == 2 ? 1. : 0.}; }
  size_t addPoint(const SurfacePoint& p) {
    size_t id = pts.size();
    pts.push_back(p);
    for (Face f : m.faces()) {
      Halfedge h = f.halfedge();
      for (int i = 0; i < 3; i++, h = h.next()) {
        if (p.type == SurfacePointType::Vertex && h.vertex() == p.vertex)
          inFace[f.getIndex()].push_back({id, unitBary(i)});
        if (p.type == SurfacePointType::Edge && h.edge() == p.edge) {
          double t = h.tailVertex() == p.edge.firstVertex() ? p.tEdge : 1 - p.tEdge;
          inFace[f.getIndex()].push_back({id, (1 - t) * unitBary(i) + t * unitBary((i + 1) % 3)});
        }
      }
      if (p.type == SurfacePointType::Face && p.face == f) inFace[f.getIndex()].push_back({id, p.faceCoords});
    }
    if (p.type == SurfacePointType::Vertex && vnode[p.vertex.getIndex()] == INVALID_IND) vnode[p.vertex.getIndex()] = id;
    return id;
  }
  // edge-graph distances from a point to all vertices
  std::vector<LD> graph(const SurfacePoint& s) const {
    std::vector<LD> d(m.nVerticesCapacity(), INFINITY);
    for (Face f : m.faces()) {
      Halfedge h[3];
      LC p[3];
      corners(o, f, h, p);
      Vector3 b;
      bool in = false;
      if (s.type == SurfacePointType::Face && s.face == f) {
        b = s.faceCoords;
        in = true;
      }
      for (int i = 0; i < 3; i++) {
        if (s.type == SurfacePointType::Vertex && h[i].vertex() == s.vertex) {
          b = unitBary(i);
          in = true;
        }
        if (s.type == SurfacePointType::Edge && h[i].edge() == s.edge) {
          double t = h[i].tailVertex() == s.edge.firstVertex() ? s.tEdge : 1 - s.tEdge;
          b = (1 - t) * unitBary(i) + t * unitBary((i + 1) % 3);
          in = true;
        }
      }
      if (!in) continue;
      LC x = p[0] * (LD)b.x + p[1] * (LD)b.y + p[2] * (LD)b.z;
      for (int i = 0; i < 3; i++) d[h[i].vertex().getIndex()] = std::min(d[h[i].vertex().getIndex()], std::abs(p[i] - x));
    }
    for (bool ch = true; ch;) {
      ch = false;
      for (Edge e : m.edges()) {
        size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
        LD l = o.L(e);
        if (d[a] + l < d[b]) d[b] = d[a] + l, ch = true;
        if (d[b] + l < d[a]) d[a] = d[b] + l, ch = true;
      }
    }
    return d;
  }

  void report(Face f, LC p[3], LC rot, const LC* lo, const LC* hi) {
    for (auto& q : inFace[f.getIndex()]) {
      LC x = p[0] * (LD)q.second.x + p[1] * (LD)q.second.y + p[2] * (LD)q.second.z;
      LD r = std::abs(x);
      if (lo && (crs(*lo, x) < -1e-11L * r || crs(x, *hi) < -1e-11L * r)) continue;
      legs.push_back({q.first, r, f, r > 0 ? x / r * rot : LC(0)});
    }
  }
  // window through halfedge h of the face just crossed; T, S: tail and tip in the frame with the source at the origin
  void window(Halfedge h, LC T, LC S, LC lo, LC hi, int s, LD bound, int depth) {
    if (++windows > 400000 || depth > 400) {
      exhausted = true;
      return;
    }
    // closest point of the segment inside the cone
    LC e = S - T;
    auto hit = [&](LC r) {
      LD den = crs(r, e);
      return den == 0 ? 0.L : std::min(1.L, std::max(0.L, crs(T, r) / den));
    };
    LD t0 = hit(lo), t1 = hit(hi);
    if (t0 > t1) std::swap(t0, t1);
    LD foot = -(T.real() * e.real() + T.imag() * e.imag()) / std::norm(e);
    foot = std::min(t1, std::max(t0, foot));
    if (std::abs(T + e * foot) > bound) return;
    std::vector<Halfedge> sib;
    for (Halfedge k : h.edge().adjacentHalfedges())
      if (k != h && k.isInterior()) sib.push_back(k);
    for (Halfedge k : sib) {
      bool same = k.tailVertex() == h.tailVertex();
      int s2 = same ? -s : s;
      LC A = same ? T : S, B = same ? S : T;
      LC u = (B - A) / std::abs(B - A);
      Halfedge k1 = k.next(), k2 = k1.next();
      LC R = A + u * std::polar(o.L(k2.edge()), s2 * o.ang[k.getIndex()]);
      Face f = k.face();
      Halfedge hh[3];
      LC base[3], p[3];
      corners(o, f, hh, base);
      for (int i = 0; i < 3; i++) p[i] = hh[i] == k ? A : hh[i] == k1 ? B : R;
      LC rot = o.vecInFace(k) / (B - A);
      rot /= std::abs(rot);
      report(f, p, rot, &lo, &hi);
      auto child = [&](Halfedge c, LC x, LC y) {
        LC a = x, b = y;
        if (crs(a, b) < 0) std::swap(a, b);
        LC l = lo / std::abs(lo), r = hi / std::abs(hi);
        a /= std::abs(a);
        b /= std::abs(b);
        if (crs(l, a) > 0) l = a;
        if (crs(b, r) > 0) r = b;
        if (crs(l, r) < 1e-13L) return;
        window(c, x, y, l, r, s2, bound, depth + 1);
      };
      child(k1, B, R);
      child(k2, R, A);
    }
  }
  // straight legs from node i to every node it sees (through face interiors), up to the length which any shortest path can have
  std::vector<Leg> visible(size_t i) {
    legs.clear();
    SurfacePoint s = pts[i];
    std::vector<LD> U = graph(s);
    LD bound = 0;
    for (Vertex v : m.vertices())
      if (std::isfinite((double)U[v.getIndex()])) bound = std::max(bound, U[v.getIndex()]);
    LD lmax = 0;
    for (Edge e : m.edges()) lmax = std::max(lmax, o.L(e));
    bool interior = false;
    for (auto& p : pts) interior |= p.type != SurfacePointType::Vertex;
    if (interior) bound += lmax * .6L; // any point is within that of some vertex of its face
    bound *= 1 + 1e-9L;
    for (Face f : m.faces())
      for (auto& q : inFace[f.getIndex()]) {
        if (q.first != i) continue;
        Halfedge h[3];
        LC p[3];
        corners(o, f, h, p);
        LC x = p[0] * (LD)q.second.x + p[1] * (LD)q.second.y + p[2] * (LD)q.second.z;
        for (auto& c : p) c -= x;
        report(f, p, LC(1), nullptr, nullptr);
        for (int k = 0; k < 3; k++) {
          Halfedge c = h[k];
          if (s.type == SurfacePointType::Edge && c.edge() == s.edge) continue;
          if (s.type == SurfacePointType::Vertex && (c.tailVertex() == s.vertex || c.tipVertex() == s.vertex)) continue;
          LC a = p[k], b = p[(k + 1) % 3];
          window(c, a, b, a / std::abs(a), b / std::abs(b), 1, bound, 0);
        }
      }
    return legs;
  }

  // distance from each of `sources` to every node: result[source][node]; arrivals[node] lists the ways the nearest source is reached
  std::vector<std::vector<LD>> dist;
  std::vector<std::vector<Arrival>> arrivals;
  bool solve(const std::vector<size_t>& sources) {
    std::set<size_t> hubs(sources.begin(), sources.end());
    for (Vertex v : m.vertices()) {
      bool bd = false;
      for (Halfedge h : v.outgoingHalfedges()) {
        int k = 0, k2 = 0;
        Halfedge prev = h;
        while (prev.next() != h) prev = prev.next();
        for (Halfedge x : h.edge().adjacentHalfedges()) k += x.isInterior();
        for (Halfedge x : prev.edge().adjacentHalfedges()) k2 += x.isInterior();
        bd |= k != 2 || k2 != 2;
      }
      if (bd || !v.isManifold() || o.angSum[v.getIndex()] > 2 * LPI - 1e-3L) {
        if (vnode[v.getIndex()] == INVALID_IND) addPoint(SurfacePoint(v));
        hubs.insert(vnode[v.getIndex()]);
      }
    }
    size_t n = pts.size();
    std::map<size_t, std::vector<Leg>> out;
    for (size_t h : hubs) {
      out[h] = visible(h);
      if (exhausted) return false;
    }
    dist.assign(sources.size(), std::vector<LD>(n, INFINITY));
    for (size_t k = 0; k < sources.size(); k++) {
      std::vector<LD>& d = dist[k];
      d[sources[k]] = 0;
      for (bool ch = true; ch;) {
        ch = false;
        for (auto& h : out) {
          if (!std::isfinite((double)d[h.first])) continue;
          for (auto& l : h.second)
            if (d[h.first] + l.len < d[l.to] * (1 - 1e-17L)) d[l.to] = d[h.first] + l.len, ch = true;
        }
      }
    }
    arrivals.assign(n, {});
    for (auto& h : out)
      for (auto& l : h.second) {
        if (l.len == 0) continue;
        for (size_t k = 0; k < sources.size(); k++)
          if (std::isfinite((double)dist[k][h.first])) arrivals[l.to].push_back({dist[k][h.first] + l.len, l.f, l.dir, k});
      }
    return true;
  }
  LD best(size_t node) const {
    LD b = INFINITY;
    for (auto& d : dist) b = std::min(b, d[node]);
    return b;
  }
};

// direction `dir` (frame of face f) at p as a unit tangent vector of p; `back` tells that the ray on the surface is -dir (it lies in f)
inline LC atPoint(const TriOracle& o, const SurfacePoint& p, Face f, LC dir, bool back) {
  dir /= std::abs(dir);
  if (p.type == SurfacePointType::Face) return dir;
  for (Halfedge h : f.adjacentHalfedges()) {
    LC e = o.vecInFace(h);
    e /= std::abs(e);
    if (p.type == SurfacePointType::Edge && h.edge() == p.edge) return (h == p.edge.halfedge() ? LC(1) : LC(-1)) * dir / e;
    if (p.type == SurfacePointType::Vertex && h.vertex() == p.vertex) {
      LD a = std::arg((back ? -dir : dir) / e); // in [0, corner angle] up to rounding
      LC r = std::polar((LD)1, o.phi[h.getIndex()] + a * o.scaled[h.getIndex()] / o.ang[h.getIndex()]);
      return back ? -r : r;
    }
  }
  return 0;
}

} // namespace mg
