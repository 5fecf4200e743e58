// C29: parameterization and embedding; C31: mollification, intrinsic Delaunay flips, tufted Laplacian
#include "meshcheck.h"
#include "pointutil.h"
#include "pbt_main.h"

#include "geometrycentral/surface/boundary_first_flattening.h"
#include "geometrycentral/surface/embed_convex.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/parameterize.h"
#include "geometrycentral/surface/simple_idt.h"
#include "geometrycentral/surface/tufted_laplacian.h"
#include "geometrycentral/surface/uniformize.h"

#include <Eigen/Dense>
#include <iostream>
#include <sstream>

using namespace mg;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> MatL;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> VecL;

struct Quiet { // the library prints progress to the standard streams
  std::ostringstream os;
  std::streambuf *a, *b;
  Quiet() : a(std::cout.rdbuf(os.rdbuf())), b(std::cerr.rdbuf(os.rdbuf())) {}
  ~Quiet() {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};

// ---------------------------------------------------------------- glued triangles
struct GluedTris {
  struct T {
    int v[3];
    LD l[3];
    int o[3]; // 3*t+i of the side glued here, or -1
  };
  std::vector<T> t;
  int nV = 0;
  void glue(int a, int b) {
    if (a >= 0) t[a / 3].o[a % 3] = b;
    if (b >= 0) t[b / 3].o[b % 3] = a;
  }
  LD area(int k) const {
    LD a = t[k].l[0], b = t[k].l[1], c = t[k].l[2];
    if (a < b) std::swap(a, b);
    if (a < c) std::swap(a, c);
    if (b < c) std::swap(b, c);
    return sqrtl(fmaxl(0.L, (a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c)))) / 4;
  }
  LD cot(int s) const { // of the angle opposite side s
    const T& x = t[s / 3];
    LD a = x.l[s % 3], b = x.l[(s + 1) % 3], c = x.l[(s + 2) % 3];
    return (b * b + c * c - a * a) / (4 * area(s / 3));
  }
  LD angle(int k, int i) const { // at corner i
    const T& x = t[k];
    LD a = x.l[(i + 1) % 3], b = x.l[i], c = x.l[(i + 2) % 3];
    return atan2l(4 * area(k), b * b + c * c - a * a);
  }
  LD score(int s, bool hyp) const {
    if (!hyp) return cot(s) + cot(t[s / 3].o[s % 3]);
    LD r = 0;
    for (int q : {s, t[s / 3].o[s % 3]}) {
      const T& x = t[q / 3];
      LD a = x.l[q % 3], b = x.l[(q + 1) % 3], c = x.l[(q + 2) % 3];
      r += (b * b + c * c - a * a) / (b * c);
    }
    return r;
  }
  bool flip(int s, bool hyp) {
    int u = t[s / 3].o[s % 3];
    if (u < 0 || u / 3 == s / 3) return false;
    int a = s / 3, i = s % 3, b = u / 3, j = u % 3;
    T A = t[a], B = t[b];
    LD e = A.l[i], p = A.l[(i + 1) % 3], q = A.l[(i + 2) % 3], r = B.l[(j + 1) % 3], w = B.l[(j + 2) % 3];
    LD n;
    // sides: v0->v1 = e, v1->c = p, c->v0 = q, v0->d = r, d->v1 = w
    if (hyp)
      n = (p * r + q * w) / e;
    else {
      LD cx = (e * e + q * q - p * p) / (2 * e), cy = 2 * area(a) / e, dx = (e * e + r * r - w * w) / (2 * e), dy = -2 * area(b) / e;
      n = sqrtl((cx - dx) * (cx - dx) + (cy - dy) * (cy - dy));
    }
    int v0 = A.v[i], v1 = A.v[(i + 1) % 3], c = A.v[(i + 2) % 3], d = B.v[(j + 2) % 3];
    // (d, v1, c) and (c, v0, d)
    T X{{d, v1, c}, {w, p, n}, {B.o[(j + 2) % 3], A.o[(i + 1) % 3], 3 * b + 2}};
    T Y{{c, v0, d}, {q, r, n}, {A.o[(i + 2) % 3], B.o[(j + 1) % 3], 3 * a + 2}};
    std::map<int, int> mv{{3 * b + (j + 2) % 3, 3 * a}, {3 * a + (i + 1) % 3, 3 * a + 1}, {3 * a + (i + 2) % 3, 3 * b}, {3 * b + (j + 1) % 3, 3 * b + 1}};
    for (T* z : {&X, &Y})
      for (int k = 0; k < 2; k++)
        if (mv.count(z->o[k])) z->o[k] = mv[z->o[k]];
    t[a] = X;
    t[b] = Y;
    for (int k : {a, b})
      for (int h = 0; h < 2; h++)
        if (t[k].o[h] >= 0) t[t[k].o[h] / 3].o[t[k].o[h] % 3] = 3 * k + h;
    return true;
  }
  int delaunay(G& g, bool hyp) {
    int n = 0;
    for (bool ch = true; ch;) {
      ch = false;
      for (int s = 0; s < (int)t.size() * 3; s++)
        if (t[s / 3].o[s % 3] >= 0 && score(s, hyp) < -1e-11L && flip(s, hyp)) {
          ch = true;
          if (++n > 200000) g.discard();
        }
    }
    return n;
  }
  MatL laplacian() const {
    MatL L = MatL::Zero(nV, nV);
    for (int s = 0; s < (int)t.size() * 3; s++) {
      LD w = cot(s) / 2;
      int a = t[s / 3].v[s % 3], b = t[s / 3].v[(s + 1) % 3];
      L(a, a) += w;
      L(b, b) += w;
      L(a, b) -= w;
      L(b, a) -= w;
    }
    return L;
  }
  VecL angleSums() const {
    VecL r = VecL::Zero(nV);
    for (size_t k = 0; k < t.size(); k++)
      for (int i = 0; i < 3; i++) r(t[k].v[i]) += angle(k, i);
    return r;
  }
  LD minAngle() const {
    LD r = 9;
    for (size_t k = 0; k < t.size(); k++)
      for (int i = 0; i < 3; i++) {
        LD x = angle(k, i);
        if (!(x >= 0)) return 0;
        r = fminl(r, x);
      }
    return r;
  }
};

// of an oriented edge-manifold mesh
static GluedTris gluedOf(SurfaceMesh& m, std::function<LD(Edge)> len) {
  GluedTris r;
  r.nV = m.nVertices();
  VertexData<size_t> vi = m.getVertexIndices();
  std::map<size_t, int> side;
  std::vector<Halfedge> hs;
  for (Face f : m.faces()) {
    GluedTris::T x;
    int i = 0;
    for (Halfedge h : f.adjacentHalfedges()) {
      x.v[i] = vi[h.vertex()];
      x.l[i] = len(h.edge());
      x.o[i] = -1;
      side[h.getIndex()] = 3 * r.t.size() + i;
      hs.push_back(h);
      i++;
    }
    r.t.push_back(x);
  }
  for (Halfedge h : hs) {
    Halfedge o = m.usesImplicitTwin() ? h.twin() : h.sibling();
    if (o != h && side.count(o.getIndex())) r.t[side[h.getIndex()] / 3].o[side[h.getIndex()] % 3] = side[o.getIndex()];
  }
  return r;
}

// ---------------------------------------------------------------- C29: boundary first flattening

static Geo genDisk(G& g, int maxF, bool gaps, double minAng) {
  GenOpts o;
  o.tri = true;
  o.disk = true;
  o.multi = false;
  o.maxFaces = maxF;
  Geo w = genTriGeo(g, o, gaps, minAng, 3);
  if (w.man->nBoundaryLoops() != 1 || w.man->nConnectedComponents() != 1) g.discard();
  return w;
}

struct BFFRef {
  ManifoldSurfaceMesh& m;
  TriOracle o;
  std::vector<Halfedge> loop; // interior halfedges along the boundary, counterclockwise
  std::vector<int> ii;
  std::vector<size_t> iv;
  MatL L, Lii, Lib;
  VecL Om;
  std::vector<size_t> bv; // dense vertex index of the tail of loop[k]
  BFFRef(G& g, ManifoldSurfaceMesh& m_, TriOracle o_) : m(m_), o(o_) {
    size_t n = m.nVertices();
    Halfedge h;
    for (Halfedge x : m.interiorHalfedges())
      if (!x.twin().isInterior()) h = x;
    Halfedge s = h;
    do {
      loop.push_back(h);
      h = h.next();
      while (h.twin().isInterior()) h = h.twin().next();
    } while (h != s);
    L = MatL::Zero(n, n);
    Om = VecL::Zero(n);
    for (Face f : m.faces())
      for (Halfedge x : f.adjacentHalfedges()) {
        LD w = o.cot[x.getIndex()] / 2;
        size_t a = o.vi[x.tailVertex().getIndex()], b = o.vi[x.tipVertex().getIndex()];
        L(a, a) += w;
        L(b, b) += w;
        L(a, b) -= w;
        L(b, a) -= w;
      }
    ii.assign(n, -1);
    for (Vertex v : m.vertices()) {
      size_t k = o.vi[v.getIndex()];
      bool b = false;
      for (Halfedge x : loop) b |= x.tailVertex() == v;
      Om(k) = (b ? LPI : 2 * LPI) - o.angSum[v.getIndex()];
      if (!b) {
        ii[k] = iv.size();
        iv.push_back(k);
      }
    }
    for (Halfedge x : loop) bv.push_back(o.vi[x.tailVertex().getIndex()]);
    Lii = MatL(iv.size(), iv.size());
    for (size_t a = 0; a < iv.size(); a++)
      for (size_t b = 0; b < iv.size(); b++) Lii(a, b) = L(iv[a], iv[b]);
  }
  // solution of (L x)_i = r_i inside with the values of x on the boundary
  VecL extend(VecL x, const VecL& r) {
    if (iv.empty()) return x;
    VecL rhs(iv.size());
    for (size_t a = 0; a < iv.size(); a++) {
      rhs(a) = r(iv[a]);
      for (size_t b : bv) rhs(a) -= L(iv[a], b) * x(b);
    }
    VecL y = Lii.ldlt().solve(rhs);
    for (size_t a = 0; a < iv.size(); a++) x(iv[a]) = y(a);
    return x;
  }
  std::vector<std::complex<double>> layout(G& g, const VecL& u, const VecL& k) {
    size_t n = bv.size();
    std::vector<LD> len, l0;
    std::vector<LC> T;
    LD phi = 0;
    for (size_t i = 0; i < n; i++) {
      LD l = o.L(loop[i].edge());
      l0.push_back(l);
      len.push_back(l * expl((u(bv[i]) + u(bv[(i + 1) % n])) / 2));
      T.push_back(std::polar((LD)1, phi));
      phi += k(bv[(i + 1) % n]);
    }
    // closest closing lengths, weighted by 1/l
    LC d = 0;
    LD a = 0, b = 0, c = 0, sum = 0;
    for (size_t i = 0; i < n; i++) {
      d += len[i] * T[i];
      a += l0[i] * T[i].real() * T[i].real();
      b += l0[i] * T[i].real() * T[i].imag();
      c += l0[i] * T[i].imag() * T[i].imag();
      sum += l0[i];
    }
    LD det = a * c - b * b;
    if (det < 1e-4L * sum * sum) g.discard();
    LD p = (c * d.real() - b * d.imag()) / det, q = (a * d.imag() - b * d.real()) / det;
    VecL X = VecL::Zero(m.nVertices()), Y = X;
    LC z = 0;
    for (size_t i = 0; i < n; i++) {
      X(bv[i]) = z.real();
      Y(bv[i]) = z.imag();
      z += (len[i] - l0[i] * (T[i].real() * p + T[i].imag() * q)) * T[i];
    }
    VecL Z = VecL::Zero(m.nVertices());
    X = extend(X, Z);
    Y = extend(Y, Z);
    std::vector<std::complex<double>> r;
    for (size_t i = 0; i < m.nVertices(); i++) r.push_back({(double)X(i), (double)Y(i)});
    return r;
  }
};

typedef std::vector<std::complex<double>> Plane;
static Plane planeOf(ManifoldSurfaceMesh& m, const VertexData<Vector2>& p) {
  Plane r;
  for (Vertex v : m.vertices()) r.push_back({p[v].x, p[v].y});
  return r;
}
// equal up to an orientation-preserving rigid motion
static void cmpPlane(G& g, const Plane& a, const Plane& b, double tol, const std::string& what) {
  size_t i0 = 0, i1 = 0;
  double d = -1;
  for (size_t i = 0; i < b.size(); i++)
    for (size_t j = i + 1; j < b.size(); j++)
      if (std::abs(b[i] - b[j]) > d) d = std::abs(b[i] - b[j]), i0 = i, i1 = j;
  for (auto& z : a) REQ(g, std::isfinite(z.real()) && std::isfinite(z.imag()), what << ": not finite");
  REQ_NEAR(g, std::abs(a[i1] - a[i0]), d, tol * d, what << ": extent");
  std::complex<double> rot = (b[i1] - b[i0]) / (a[i1] - a[i0]);
  rot /= std::abs(rot);
  for (size_t i = 0; i < a.size(); i++) {
    std::complex<double> z = (a[i] - a[i0]) * rot + b[i0];
    REQ_NEAR(g, z.real(), b[i].real(), tol * d, what << ": x of vertex " << i);
    REQ_NEAR(g, z.imag(), b[i].imag(), tol * d, what << ": y of vertex " << i);
  }
}

static void bff(G& g) {
  Geo w = genDisk(g, 80, true, .1);
  ManifoldSurfaceMesh& m = *w.man;
  EdgeLengthGeometry* elg = nullptr;
  std::unique_ptr<EdgeLengthGeometry> keep;
  EdgeData<double> l(m);
  for (Edge e : m.edges()) l[e] = norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]);
  bool shaken = g.chance(.3);
  if (shaken)
    for (Edge e : m.edges()) l[e] *= 1 + g.jitter(.02);
  TriOracle o = oracleOf(m, l);
  if (shaken) {
    for (Face f : m.faces())
      for (Halfedge h : f.adjacentHalfedges())
        if (!(o.ang[h.getIndex()] > .05)) g.discard();
    keep.reset(elg = new EdgeLengthGeometry(m, l));
  }
  IntrinsicGeometryInterface& geo = elg ? (IntrinsicGeometryInterface&)*elg : *w.vpg;
  BFFRef ref(g, m, o);
  g.note(" interior=", ref.iv.size(), " boundary=", ref.bv.size());
  if (ref.iv.empty()) g.label("no interior vertex");
  size_t n = m.nVertices();
  BFF B(m, geo);
  int k = g.range(1, 3);
  for (int q = 0; q < k; q++) {
    int mode = (int)g.below(3);
    VertexData<double> in(m, g.coin() ? 0. : g.coin() ? NAN : 3.);
    VecL u = VecL::Zero(n), kk = VecL::Zero(n);
    VertexData<Vector2> got, once;
    if (mode == 2) { // exterior angles
      g.label("angles");
      LD sum = 0;
      int kind = (int)g.below(3);
      size_t nb = ref.bv.size();
      std::vector<size_t> cor;
      for (int i = 0; i < 4; i++) cor.push_back(g.below(nb));
      for (size_t i = 0; i < nb; i++) {
        LD x = kind == 0 ? ref.Om(ref.bv[i]) + g.jitter(.4) : kind == 1 ? 1 + g.jitter(.3) : 0;
        if (kind == 2)
          for (size_t c : cor) x += c == i ? LPI / 2 : 0;
        kk(ref.bv[i]) = x;
        sum += x;
      }
      for (size_t b : ref.bv) kk(b) += (2 * LPI - sum) / (LD)nb;
      for (Vertex v : m.vertices())
        if (ref.ii[o.vi[v.getIndex()]] < 0) {
          in[v] = (double)kk(o.vi[v.getIndex()]);
          kk(o.vi[v.getIndex()]) = in[v];
        }
      // L u = k - Omega, mean zero on the boundary
      MatL A = ref.L;
      VecL rhs = -ref.Om;
      for (size_t b : ref.bv) rhs(b) += kk(b);
      rhs.array() -= rhs.mean();
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) A(i, j) += 1 / (LD)n;
      u = A.ldlt().solve(rhs);
      LD mean = 0;
      for (size_t b : ref.bv) mean += u(b) / (LD)nb;
      u.array() -= mean;
      for (size_t b : ref.bv)
        if (fabsl(u(b)) > 4) g.discard();
      Plane want = ref.layout(g, u, kk);
      got = B.flattenFromExteriorAngles(in);
      cmpPlane(g, planeOf(m, got), want, 1e-6, "flattenFromExteriorAngles");
      once = parameterizeBFFfromExteriorAngles(m, geo, in);
      VertexData<double> bad = in;
      for (size_t i = 0; i < nb; i++)
        if (i == 0) bad[ref.loop[i].tailVertex()] += g.coin() ? .2 : -.2;
      REQ_THROWS(g, B.flattenFromExteriorAngles(bad), "exterior angles which do not sum to 2 pi were accepted");
    } else {
      double c = g.chance(.3) ? g.jitter(1) : 0, amp = g.real(0, .6);
      if (mode == 1) {
        g.label("scale factors");
        for (Halfedge h : ref.loop) u(o.vi[h.tailVertex().getIndex()]) = in[h.tailVertex()] = c + g.jitter(amp);
      }
      u = ref.extend(u, -ref.Om);
      VecL Lu = ref.L * u;
      for (size_t b : ref.bv) kk(b) = ref.Om(b) + Lu(b);
      Plane want = ref.layout(g, u, kk);
      if (mode == 0) {
        got = B.flatten();
        once = parameterizeBFF(m, geo);
      } else {
        got = B.flattenFromScaleFactors(in);
        once = parameterizeBFFfromScaleFactors(m, geo, in);
      }
      cmpPlane(g, planeOf(m, got), want, 1e-6, mode ? "flattenFromScaleFactors" : "flatten");
    }
    cmpPlane(g, planeOf(m, once), planeOf(m, got), 1e-8, "one-off function");
  }
}

static void bffRefused(G& g) {
  GenOpts o;
  o.tri = true;
  o.maxFaces = 50;
  Geo w = genTriGeo(g, o, true, .1, 2);
  ManifoldSurfaceMesh& m = *w.man;
  long chi = (long)m.nVertices() - (long)m.nEdges() + (long)m.nFaces();
  bool disk = m.nConnectedComponents() == 1 && m.nBoundaryLoops() == 1 && chi == 1;
  bool closedAndDisk = m.nConnectedComponents() > 1; // only connected surfaces are tested
  if (closedAndDisk) g.discard();
  if (disk) {
    VertexData<Vector2> p = parameterizeBFF(m, *w.vpg);
    for (Vertex v : m.vertices()) REQ(g, std::isfinite(p[v].x) && std::isfinite(p[v].y), "not finite");
    return;
  }
  g.label("not a disk");
  g.nontrivial();
  REQ_THROWS(g, parameterizeBFF(m, *w.vpg), "BFF of a surface which is not a disk (chi=" << chi << ", " << m.nBoundaryLoops() << " loops)");
}

// planar regions flatten to themselves
static void planar(G& g) {
  Soup s = genFlat(g, 30, .08);
  Geo w = makeManifoldGeo(g, s, false, .08, 3);
  ManifoldSurfaceMesh& m = *w.man;
  bool del = g.coin();
  if (!del) // lose the Delaunay property: the metric is what counts for BFF
    for (int i = 0; i < 4; i++) {
      Edge e = pickEdge(g, m);
      if (e.isBoundary()) continue;
      Halfedge h = e.halfedge();
      auto P = [&](Vertex v) { return w.pos[v]; };
      Vector3 a = P(h.tailVertex()), b = P(h.tipVertex()), c = P(h.next().tipVertex()), d = P(h.twin().next().tipVertex());
      auto ok = [&](Vector3 x, Vector3 y, Vector3 z) {
        double A = norm(cross(y - x, z - x));
        for (double l : {norm(y - x) * norm(z - x), norm(x - y) * norm(z - y), norm(x - z) * norm(y - z)})
          if (A < .08 * l) return false;
        return dot(cross(y - x, z - x), cross(b - a, c - a)) > 0;
      };
      if (ok(c, d, b) && ok(d, c, a)) m.flip(e);
    }
  VertexPositionGeometry geo(m, w.pos);
  Plane want;
  { // exact planar coordinates, counterclockwise
    Face f = m.face(0);
    Vector3 a = w.pos[f.halfedge().vertex()], b = w.pos[f.halfedge().tipVertex()], c = w.pos[f.halfedge().next().tipVertex()];
    V3L x = unit(V3L(b) - V3L(a)), nn = unit(cross(V3L(b) - V3L(a), V3L(c) - V3L(a))), y = cross(nn, x);
    for (Vertex v : m.vertices()) {
      V3L d = V3L(w.pos[v]) - V3L(a);
      want.push_back({(double)dot(d, x), (double)dot(d, y)});
    }
  }
  cmpPlane(g, planeOf(m, parameterizeBFF(m, geo)), want, 1e-7, "flattening of a planar mesh");
  VertexData<double> k(m, 0.);
  TriOracle o = oracleOf(m, w.pos);
  for (Vertex v : m.vertices()) k[v] = v.isBoundary() ? (double)(LPI - o.angSum[v.getIndex()]) : 0;
  Plane q = planeOf(m, parameterizeBFFfromExteriorAngles(m, geo, k));
  { // angles give the shape up to scale: the scale factors have mean zero, here all are zero
    cmpPlane(g, q, want, 1e-6, "flattening from the angles of a planar mesh");
  }
  Quiet qq;
  if (del) cmpPlane(g, planeOf(m, parameterizeDisk(m, geo)), want, 1e-5, "parameterizeDisk of a planar mesh");
}

// ---------------------------------------------------------------- C29: uniformization

struct UniRef {
  GluedTris t;
  VecL u;
  bool ok = false;
};
// the damped Newton iteration; ok if it converges steadily
static UniRef uniformizeRef(G& g, GluedTris t, const std::vector<bool>& inner, bool flips) {
  UniRef r;
  int n = t.nV;
  std::vector<int> id(n, -1), iv;
  for (int i = 0; i < n; i++)
    if (inner[i]) id[i] = iv.size(), iv.push_back(i);
  if (flips) t.delaunay(g, true);
  r.u = VecL::Zero(n);
  LD prev = 1e9;
  for (int it = 0; it < 80 && !iv.empty(); it++) {
    if (t.minAngle() < .01L) return r;
    VecL s = t.angleSums(), rhs(iv.size());
    LD mx = 0;
    for (size_t i = 0; i < iv.size(); i++) {
      LD K = 2 * LPI - s(iv[i]);
      rhs(i) = -K;
      mx = fmaxl(mx, fabsl(K));
    }
    if (it && mx > .95L * prev && mx > 1e-12L) return r;
    prev = mx;
    MatL L = t.laplacian(), A(iv.size(), iv.size());
    for (size_t i = 0; i < iv.size(); i++)
      for (size_t j = 0; j < iv.size(); j++) A(i, j) = L(iv[i], iv[j]);
    VecL d = .5L * A.ldlt().solve(rhs);
    for (size_t i = 0; i < iv.size(); i++) r.u(iv[i]) += d(i);
    for (auto& x : t.t)
      for (int i = 0; i < 3; i++) {
        int a = id[x.v[i]], b = id[x.v[(i + 1) % 3]];
        x.l[i] *= expl(((a < 0 ? 0 : d(a)) + (b < 0 ? 0 : d(b))) / 2);
      }
    if (flips) t.delaunay(g, true);
  }
  if (t.minAngle() < .01L) return r;
  r.t = t;
  r.ok = iv.empty() || prev < 1e-11L;
  return r;
}

static void uniformize(G& g) {
  Geo w = genDisk(g, 50, true, .15);
  ManifoldSurfaceMesh& m = *w.man;
  TriOracle o = oracleOf(m, w.pos);
  std::vector<bool> inner(m.nVertices());
  for (Vertex v : m.vertices()) inner[o.vi[v.getIndex()]] = !v.isBoundary();
  GluedTris t0 = gluedOf(m, [&](Edge e) { return o.L(e); });
  bool flips = g.coin();
  UniRef ref = uniformizeRef(g, t0, inner, flips);
  if (!ref.ok) g.discard();
  g.label(flips ? "with flips" : "without flips");
  Quiet q;
  if (!flips) {
    EdgeData<double> l = uniformizeDisk(m, *w.vpg, false);
    for (Edge e : m.edges()) {
      LD want = o.L(e) * expl((ref.u(o.vi[e.firstVertex().getIndex()]) + ref.u(o.vi[e.secondVertex().getIndex()])) / 2);
      REQ_NEAR(g, l[e], (double)want, 1e-6 * (double)want, "uniformized length of " << e);
    }
    TriOracle p = oracleOf(m, l);
    for (Vertex v : m.vertices())
      if (!v.isBoundary()) REQ_NEAR(g, (double)p.angSum[v.getIndex()], 2 * M_PI, 1e-6, "angle sum at " << v);
    return;
  }
  // the flat metric does not depend on the final triangulation
  VertexData<Vector2> P = parameterizeDisk(m, *w.vpg);
  std::vector<char> have(m.nVertices(), 0), seen(ref.t.t.size(), 0);
  std::vector<LC> z(m.nVertices());
  std::vector<int> q2;
  auto put = [&](int v, LC x) {
    if (!have[v]) have[v] = 1, z[v] = x;
  };
  put(ref.t.t[0].v[0], 0);
  put(ref.t.t[0].v[1], ref.t.t[0].l[0]);
  // develop along the dual tree; corners are kept per triangle
  std::vector<std::array<LC, 3>> c(ref.t.t.size());
  auto third = [&](int k, int i, LC a, LC b) { // position of corner i+2 from corners i, i+1
    const GluedTris::T& x = ref.t.t[k];
    return a + (b - a) / x.l[i] * std::polar(x.l[(i + 2) % 3], ref.t.angle(k, i));
  };
  c[0][0] = 0;
  c[0][1] = ref.t.t[0].l[0];
  c[0][2] = third(0, 0, c[0][0], c[0][1]);
  put(ref.t.t[0].v[2], c[0][2]);
  seen[0] = 1;
  q2.push_back(0);
  while (!q2.empty()) {
    int k = q2.back();
    q2.pop_back();
    for (int i = 0; i < 3; i++) {
      int s = ref.t.t[k].o[i];
      if (s < 0 || seen[s / 3]) continue;
      int b = s / 3, j = s % 3;
      seen[b] = 1;
      c[b][j] = c[k][(i + 1) % 3];
      c[b][(j + 1) % 3] = c[k][i];
      c[b][(j + 2) % 3] = third(b, j, c[b][j], c[b][(j + 1) % 3]);
      put(ref.t.t[b].v[(j + 2) % 3], c[b][(j + 2) % 3]);
      q2.push_back(b);
    }
  }
  Plane want;
  for (auto& x : z) want.push_back({(double)x.real(), (double)x.imag()});
  cmpPlane(g, planeOf(m, P), want, 1e-5, "parameterizeDisk");
  // the lengths themselves, on the flipped mesh
  std::vector<LD> bl;
  for (Edge e : m.edges()) bl.push_back(e.isBoundary() ? o.L(e) : -1);
  EdgeData<double> l = uniformizeDisk(m, *w.vpg, true);
  checkStructure(g, m, "after");
  TriOracle p = oracleOf(m, l);
  for (Vertex v : m.vertices()) {
    if (!v.isBoundary()) REQ_NEAR(g, (double)p.angSum[v.getIndex()], 2 * M_PI, 1e-6, "angle sum at " << v);
  }
  size_t i = 0;
  for (Edge e : m.edges()) {
    if (e.isBoundary()) {
      REQ_NEAR(g, l[e], (double)bl[i], 1e-9 * (double)bl[i], "boundary length of " << e);
    } else {
      double d = std::abs(want[o.vi[e.firstVertex().getIndex()]] - want[o.vi[e.secondVertex().getIndex()]]);
      REQ_NEAR(g, l[e], d, 1e-5 * w.scale, "length of " << e << " against the layout");
    }
    i++;
  }
}

// ---------------------------------------------------------------- C29: embedding of convex metrics

static Soup genConvex(G& g) {
  Soup s;
  int kind = g.weighted({6, 2, 1});
  if (kind == 0) {
    int n = g.range(4, 18);
    double sx = g.real(.6, 1.6), sy = g.real(.6, 1.6);
    double off = 2.399963;
    for (int i = 0; i < n; i++) {
      double z = 1 - (2. * i + 1) / n, a = off * i + g.jitter(.4);
      z = std::max(-1., std::min(1., z + g.jitter(.5 / n)));
      double r = std::sqrt(1 - z * z);
      s.pos.push_back(Vector3{sx * r * std::cos(a), sy * r * std::sin(a), z});
    }
    for (int a = 0; a < n; a++)
      for (int b = a + 1; b < n; b++)
        for (int c = b + 1; c < n; c++) {
          V3L A(s.pos[a]), N = cross(V3L(s.pos[b]) - A, V3L(s.pos[c]) - A);
          int pl = 0, mi = 0;
          for (int d = 0; d < n; d++)
            if (d != a && d != b && d != c) {
              LD x = dot(N, V3L(s.pos[d]) - A);
              if (fabsl(x) < 1e-3L * norm(N)) g.discard();
              (x > 0 ? pl : mi)++;
            }
          if (pl && mi) continue;
          if (mi) s.polys.push_back({(size_t)a, (size_t)b, (size_t)c});
          else s.polys.push_back({(size_t)a, (size_t)c, (size_t)b});
        }
    s.desc = "hull";
  } else if (kind == 1) {
    int n = g.range(3, 8);
    double h1 = g.real(.4, 1.2), h2 = g.real(.4, 1.2);
    for (int i = 0; i < n; i++) s.pos.push_back(Vector3{std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0});
    s.pos.push_back(Vector3{0, 0, h1});
    s.pos.push_back(Vector3{0, 0, -h2});
    for (size_t i = 0; i < (size_t)n; i++) {
      size_t j = (i + 1) % n;
      s.polys.push_back({i, j, (size_t)n});
      s.polys.push_back({j, i, (size_t)n + 1});
    }
    s.desc = "bipyramid";
  } else {
    double b = g.real(.6, 1.6), c = g.real(.6, 1.6);
    for (int i = 0; i < 8; i++) s.pos.push_back(Vector3{i & 1 ? 1. : 0., i & 2 ? b : 0., i & 4 ? c : 0.});
    for (auto q : std::vector<std::array<size_t, 4>>{{{0, 2, 3, 1}}, {{4, 5, 7, 6}}, {{0, 1, 5, 4}}, {{2, 6, 7, 3}}, {{0, 4, 6, 2}}, {{1, 3, 7, 5}}}) {
      int d = g.below(2);
      s.polys.push_back({q[d], q[1 + d], q[2 + d]});
      s.polys.push_back({q[d], q[2 + d], q[(3 + d) % 4]});
    }
    s.desc = "box";
  }
  return s;
}

static void convex(G& g) {
  Soup s = genConvex(g);
  if (minAngle(s) < .12) g.discard();
  std::vector<size_t> perm = g.perm(s.polys.size());
  std::vector<std::vector<size_t>> pp;
  for (size_t i : perm) pp.push_back(s.polys[i]);
  s.polys = pp;
  double scale = 1;
  if (g.chance(.4)) {
    scale = std::pow(10., g.jitter(5));
    for (auto& p : s.pos) p *= scale;
  }
  ManifoldSurfaceMesh m(s.polys);
  if (m.nBoundaryLoops() || m.genus() != 0) g.fail("generator: not a sphere");
  VertexData<Vector3> pos(m);
  for (size_t i = 0; i < s.nV(); i++) pos[m.vertex(i)] = s.pos[i];
  EdgeData<double> l(m);
  for (Edge e : m.edges()) l[e] = norm(pos[e.firstVertex()] - pos[e.secondVertex()]);
  int nf = g.chance(.6) ? g.range(1, 6) : 0;
  bool other = false;
  for (int i = 0; i < nf; i++) { // another triangulation of the same metric
    TriOracle o = oracleOf(m, l);
    Edge e = pickEdge(g, m);
    Halfedge h = e.halfedge();
    LC a = 0, b = o.L(e), c = std::polar(o.L(h.next().next().edge()), o.ang[h.getIndex()]),
       d = std::polar(o.L(h.twin().next().edge()), -o.ang[h.twin().next().getIndex()]);
    auto ok = [](LC x, LC y, LC z) {
      LD A = (std::conj(y - x) * (z - x)).imag(), p = std::abs(y - x), q = std::abs(z - x), r = std::abs(y - z);
      return A > .2L * p * q && A > .2L * p * r && A > .2L * q * r;
    };
    if (!ok(d, b, c) || !ok(c, a, d)) continue;
    if (!m.flip(e)) continue;
    l[e] = (double)std::abs(c - d);
    other = true;
  }
  if (other) g.label("not the extrinsic triangulation");
  EmbedConvexOptions opt;
  bool tight = g.chance(.7);
  if (tight) {
    opt.embeddingTolerance = 1e-5;
    opt.newtonTolerance = 1e-7;
  }
  opt.verbose = g.coin();
  int how = (int)g.below(3);
  if (how == 2 && g.coin()) how = 1;
  g.note(s.desc, " n=", s.nV(), " scale=", scale, " how=", how, other ? " flipped" : "");
  g.nontrivial();
  EdgeData<double> keep = l;
  std::vector<std::vector<size_t>> fl = m.getFaceVertexList();
  CornerData<Vector2> uv(m);
  EdgeLengthGeometry elg(m, l);
  TriOracle o = oracleOf(m, l);
  for (Face f : m.faces()) {
    LC r = std::polar((LD)1, (LD)g.real(0, 6)), z = LC(g.jitter(3), g.jitter(3)) * (LD)scale;
    Halfedge h = f.halfedge();
    LC p[3] = {0, o.L(h.edge()), std::polar(o.L(h.next().next().edge()), o.ang[h.getIndex()])};
    for (int i = 0; i < 3; i++, h = h.next()) {
      LC x = z + r * p[i];
      uv[h.corner()] = Vector2{(double)x.real(), (double)x.imag()};
    }
  }
  EmbedConvexResult R;
  {
    Quiet q;
    auto go = [&]() { return how == 0 ? embedConvex(m, l, opt) : how == 1 ? embedConvex(m, elg, opt) : embedConvex(m, uv, opt); };
    R = go();
    if (!R.success && tight) { // near the limits of floating point; the documented remedy
      opt = EmbedConvexOptions();
      tight = false;
      R = go();
      g.label("tight tolerance not reached");
    }
    for (double x : {.4, .15, .05})
      if (!R.success) { // the iteration is not guaranteed to converge in floating point: smaller steps
        opt.initialStepSize = x;
        opt.maxSteps = 400;
        R = go();
        g.label("smaller steps needed");
      }
  }
  REQ(g, m.getFaceVertexList() == fl && keep.raw() == l.raw(), "the input changed");
  REQ(g, R.success, "no embedding was found");
  REQ(g, R.mesh && R.geometry && R.mesh->nVertices() == m.nVertices(), "no mesh");
  double tol = (tight ? 2e-3 : 3e-2) * scale;
  auto P = [&](size_t i) { return R.geometry->vertexPositions[R.mesh->vertex(i)]; };
  for (size_t i = 0; i < s.nV(); i++)
    for (size_t j = 0; j < i; j++)
      REQ_NEAR(g, norm(P(i) - P(j)), norm(s.pos[i] - s.pos[j]), tol, "distance of vertices " << i << " and " << j);
  // not mirrored
  double v0 = 0, v1 = 0;
  for (auto& f : s.polys) v0 += dot(s.pos[f[0]], cross(s.pos[f[1]], s.pos[f[2]])) / 6;
  for (auto& f : s.polys) v1 += dot(P(f[0]), cross(P(f[1]), P(f[2]))) / 6;
  REQ_NEAR(g, v1, v0, 3 * tol * scale * scale * 10, "enclosed volume");
  // the triangulation is the convex one
  for (Edge e : R.mesh->edges()) {
    Halfedge h = e.halfedge();
    auto X = [&](Vertex v) { return R.geometry->vertexPositions[v]; };
    if (h.next().tipVertex() == h.twin().next().tipVertex()) continue;
    Vector3 a = X(h.tailVertex()), b = X(h.tipVertex()), c = X(h.next().tipVertex()), d = X(h.twin().next().tipVertex());
    Vector3 n = cross(b - a, c - a);
    if (norm(n) < .02 * scale * scale) continue;
    REQ(g, dot(unit(n), d - a) < .03 * scale, "concave edge " << e);
  }
  // correspondence with the input
  Quiet q;
  ConvexEmbedder E(m, elg, opt);
  REQ(g, E.init() && E.embed(), "ConvexEmbedder fails");
  IntegerCoordinatesIntrinsicTriangulation& I = *E.intrinsicTriangulation;
  EdgeData<std::vector<SurfacePoint>> tr = I.traceAllIntrinsicEdgesAlongInput();
  for (Edge e : I.intrinsicMesh->edges()) {
    double x = 0;
    std::vector<SurfacePoint>& p = tr[e];
    REQ(g, p.size() >= 2, "an edge was not traced");
    for (size_t i = 0; i + 1 < p.size(); i++) {
      Face f = sharedFace(p[i], p[i + 1]);
      REQ(g, f != Face(), "consecutive points of a traced edge share no face");
      Vector3 d = p[i + 1].inFace(f).faceCoords - p[i].inFace(f).faceCoords;
      LD L[3];
      int k = 0;
      for (Halfedge h : f.adjacentHalfedges()) L[k++] = o.L(h.edge());
      LD sq = -(L[0] * L[0] * d.x * d.y + L[1] * L[1] * d.y * d.z + L[2] * L[2] * d.z * d.x);
      x += (double)sqrtl(fmaxl(0, sq));
    }
    REQ_NEAR(g, x, I.edgeLengths[e], 1e-5 * scale, "length of an edge traced over the input");
  }
}

static void convexRefused(G& g) {
  GenOpts o;
  o.tri = true;
  o.multi = false;
  o.maxFaces = 40;
  Geo w = genTriGeo(g, o, false, .15, 1);
  ManifoldSurfaceMesh& m = *w.man;
  TriOracle t = oracleOf(m, w.pos);
  bool neg = false;
  for (Vertex v : m.vertices()) {
    LD K = 2 * LPI - t.angSum[v.getIndex()];
    if (fabsl(K) < 1e-3L) g.discard();
    neg |= K < 0;
  }
  if (!(m.hasBoundary() || m.genus() != 0 || neg)) g.discard();
  g.nontrivial();
  g.label(m.hasBoundary() ? "has boundary" : m.genus() ? "genus" : "negative curvature");
  Quiet q;
  EmbedConvexResult R;
  if (g.coin())
    R = embedConvex(m, *w.vpg);
  else {
    CornerData<Vector2> uv(m);
    for (Face f : m.faces()) {
      Halfedge h = f.halfedge();
      LC p[3] = {0, t.L(h.edge()), std::polar(t.L(h.next().next().edge()), t.ang[h.getIndex()])};
      for (int i = 0; i < 3; i++, h = h.next()) uv[h.corner()] = Vector2{(double)p[i].real(), (double)p[i].imag()};
    }
    R = embedConvex(m, uv);
  }
  REQ(g, !R.success, "the metric was accepted");
}

// ---------------------------------------------------------------- C31

static void mollify(G& g) {
  bool man;
  Geo w;
  man = !g.chance(.4);
  if (!man) w = genGeneralTriGeo(g, 14, .02, 2);
  else {
    GenOpts o;
    o.tri = true;
    o.maxFaces = 40;
    w = genTriGeo(g, o, true, .1, 2);
  }
  SurfaceMesh& m = *w.mesh;
  EdgeData<double> l(m);
  double sc = 0;
  bool wild = g.coin();
  for (Edge e : m.edges()) {
    l[e] = norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]);
    if (wild && g.chance(.2)) l[e] *= g.real(.2, 3);
    sc += l[e] / m.nEdges();
  }
  double fac = g.coin() ? std::pow(10., -g.real(1, 6)) : g.real(0, .5);
  if (g.chance(.1)) fac = 0;
  bool rel = g.coin();
  double delta = rel ? fac * sc : fac * w.scale;
  double eps = 0;
  for (Face f : m.faces()) {
    double a[3];
    int i = 0;
    for (Halfedge h : f.adjacentHalfedges()) a[i++] = l[h.edge()];
    for (i = 0; i < 3; i++) eps = std::max(eps, a[i] - a[(i + 1) % 3] - a[(i + 2) % 3] + delta);
  }
  if (eps > 0) g.label("changed"), g.nontrivial();
  EdgeData<double> out = l;
  if (rel) mollifyIntrinsic(m, out, fac);
  else mollifyIntrinsicAbsolute(m, out, delta);
  for (Edge e : m.edges()) {
    REQ_NEAR(g, out[e], l[e] + eps, 1e-12 * (sc + l[e]), "mollified length of " << e);
    if (eps == 0) REQ(g, out[e] == l[e], "a nondegenerate mesh was changed");
  }
}

static void idt(G& g) {
  bool hyp = g.chance(.4);
  bool general = g.chance(.3);
  Geo w;
  if (general) {
    w = genGeneralTriGeo(g, 14, .05, 6);
    if (!w.mesh->isEdgeManifold()) {
      g.label("nonmanifold edges");
      EdgeData<double> l(*w.mesh);
      for (Edge e : w.mesh->edges()) l[e] = norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]);
      REQ_THROWS(g, flipToDelaunay(*w.mesh, l, hyp ? FlipType::Hyperbolic : FlipType::Euclidean), "nonmanifold edges were accepted");
      return;
    }
  } else {
    GenOpts o;
    o.tri = true;
    o.maxFaces = 60;
    w = genTriGeo(g, o, true, .08, 6);
    if (g.coin()) { // the same as a general mesh
      std::unique_ptr<SurfaceMesh> c(new SurfaceMesh(w.man->getFaceVertexList()));
      VertexData<Vector3> p(*c);
      p.fromVector(w.pos.toVector());
      w.pos = p;
      w.vpg.reset();
      w.mesh = std::move(c);
      w.man = nullptr;
      g.label("general");
    }
  }
  SurfaceMesh& m = *w.mesh;
  bool oriented = m.isOriented();
  TriOracle o = oracleOf(m, w.pos);
  EdgeData<double> l(m);
  for (Edge e : m.edges()) l[e] = (double)o.L(e);
  GluedTris ref;
  if (oriented) ref = gluedOf(m, [&](Edge e) { return o.L(e); });
  size_t nE = m.nEdges();
  std::vector<LD> bl(m.nEdgesCapacity(), -1);
  for (Edge e : m.edges())
    if (e.isBoundary()) bl[e.getIndex()] = o.L(e);
  size_t n = flipToDelaunay(m, l, hyp ? FlipType::Hyperbolic : FlipType::Euclidean);
  g.note(hyp ? " Hyperbolic" : " Euclidean", " flips=", n);
  g.label(n ? "flips" : "no flips");
  if (n) g.nontrivial();
  checkStructure(g, m, "after");
  REQ(g, m.nEdges() == nE, "number of edges");
  TriOracle p = oracleOf(m, l);
  for (Edge e : m.edges()) {
    REQ(g, std::isfinite(l[e]) && l[e] > 0, "length of " << e);
    if (bl[e.getIndex()] >= 0) REQ(g, e.isBoundary(), "boundary edge flipped");
    if (e.isBoundary()) {
      REQ_NEAR(g, l[e], (double)bl[e.getIndex()], 1e-12 * l[e], "boundary length");
      continue;
    }
    Halfedge a = e.halfedge(), b = m.usesImplicitTwin() ? a.twin() : a.sibling();
    if (a.face() == b.face()) continue;
    LD s = 0;
    for (Halfedge h : {a, b}) {
      LD x = p.L(e), y = p.L(h.next().edge()), z = p.L(h.next().next().edge());
      s += (y * y + z * z - x * x) / (hyp ? y * z : 4 * p.A(h.face()));
    }
    REQ(g, s > -2.1e-6, "edge " << e << " is not Delaunay: " << (double)s);
  }
  if (!hyp) {
    REQ_NEAR(g, (double)(p.totalArea() / o.totalArea()), 1., 1e-9, "area");
    for (Vertex v : m.vertices()) REQ_NEAR(g, (double)p.angSum[v.getIndex()], (double)o.angSum[v.getIndex()], 1e-7, "angle sum at " << v);
  }
  if (!oriented) return;
  ref.delaunay(g, hyp);
  // the Delaunay triangulation has one Laplacian (Euclidean) and one set of triangles where it is unique
  auto keys = [&](const GluedTris& q) {
    std::multiset<std::array<long, 3>> r;
    for (auto& x : q.t) {
      std::array<long, 3> a{{x.v[0], x.v[1], x.v[2]}};
      std::array<long, 3> b = a;
      for (int i = 0; i < 2; i++) {
        std::rotate(a.begin(), a.begin() + 1, a.end());
        b = std::min(a, b);
      }
      r.insert(b);
    }
    return r;
  };
  bool unique = true;
  for (int s = 0; s < 3 * (int)ref.t.size(); s++)
    if (ref.t[s / 3].o[s % 3] >= 0 && ref.score(s, hyp) < 1e-5L) unique = false;
  GluedTris got = gluedOf(m, [&](Edge e) { return (LD)l[e]; });
  for (int x = 0; x < 3 * (int)ref.t.size(); x++) {
    int y = ref.t[x / 3].o[x % 3];
    if (y >= 0 && (ref.t[y / 3].o[y % 3] != x || ref.t[y / 3].v[y % 3] != ref.t[x / 3].v[(x + 1) % 3] || fabsl(ref.t[y / 3].l[y % 3] - ref.t[x / 3].l[x % 3]) > 1e-12L * w.scale))
      g.fail("reference: broken gluing");
  }
  if (unique) {
    g.label("unique");
    REQ(g, keys(got) == keys(ref), "not the triangles of the Delaunay triangulation");
    if (hyp) {
      std::vector<LD> a, b;
      for (auto& x : got.t) a.insert(a.end(), x.l, x.l + 3);
      for (auto& x : ref.t) b.insert(b.end(), x.l, x.l + 3);
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      for (size_t i = 0; i < a.size(); i++) REQ_NEAR(g, (double)a[i], (double)b[i], 1e-8 * (double)b[i], "Penner coordinates");
    }
  }
  if (!hyp) {
    MatL A = got.laplacian(), B = ref.laplacian();
    LD x = (A - B).cwiseAbs().maxCoeff(), y = B.cwiseAbs().maxCoeff();
    REQ(g, x < 1e-5L * y, "intrinsic Delaunay Laplacian differs by " << (double)(x / y));
  }
}

static void cover(G& g) {
  bool man = g.chance(.3);
  Geo w;
  if (man) {
    GenOpts o;
    o.tri = true;
    o.maxFaces = 30;
    w = genTriGeo(g, o, true, .1, 2);
  } else
    w = genGeneralTriGeo(g, 14, .04, 2);
  SurfaceMesh m(w.mesh->getFaceVertexList()); // a general mesh
  VertexData<Vector3> pos(m);
  pos.fromVector(w.pos.toVector());
  VertexPositionGeometry geo(m, pos);
  EdgeData<double> l(m);
  std::map<std::array<size_t, 3>, int> want, got;
  auto key = [](Face f, bool rev) {
    std::array<size_t, 3> a;
    int i = 0;
    for (Vertex v : f.adjacentVertices()) a[i++] = v.getIndex();
    if (rev) std::swap(a[0], a[1]);
    while (a[0] > a[1] || a[0] > a[2]) std::rotate(a.begin(), a.begin() + 1, a.end());
    return a;
  };
  for (Face f : m.faces()) want[key(f, false)]++, want[key(f, true)]++;
  size_t nE = 0, nF = m.nFaces(), nV = m.nVertices();
  for (Edge e : m.edges()) {
    l[e] = norm(pos[e.firstVertex()] - pos[e.secondVertex()]);
    nE += e.degree();
    if (e.degree() > 2) g.nontrivial();
  }
  bool usePos = g.coin();
  buildIntrinsicTuftedCover(m, l, usePos ? &geo : nullptr);
  checkStructure(g, m, "after");
  REQ(g, m.nFaces() == 2 * nF && m.nVertices() == nV && m.nEdges() == nE,
      "F, V, E = " << m.nFaces() << " " << m.nVertices() << " " << m.nEdges() << ", expected " << 2 * nF << " " << nV << " " << nE);
  for (Face f : m.faces()) got[key(f, false)]++;
  REQ(g, got == want, "the faces are not those of the input, once in each orientation");
  REQ(g, !m.hasBoundary() && m.isEdgeManifold() && m.isOriented(), "the cover is not a closed oriented surface");
  for (Edge e : m.edges())
    REQ_NEAR(g, l[e], norm(pos[e.firstVertex()] - pos[e.secondVertex()]), 1e-12 * l[e], "length of " << e);
}

static void tufted(G& g) {
  Geo w;
  bool man = g.chance(.35), degenerate = false;
  if (man) {
    GenOpts o;
    o.tri = true;
    o.maxFaces = 40;
    w = genTriGeo(g, o, true, .08, 3);
  } else if (g.chance(.2)) { // nearly or fully degenerate triangles
    w = genGeneralTriGeo(g, 14, .04, 1);
    double f = g.coin() ? 0 : 1e-9;
    for (Vertex v : w.mesh->vertices()) w.pos[v].z *= f, w.pos[v].y *= g.chance(.6) ? 1 : f;
    for (Edge e : w.mesh->edges())
      if (norm(w.pos[e.firstVertex()] - w.pos[e.secondVertex()]) < 1e-3 * w.scale) g.discard();
    w.vpg.reset(new VertexPositionGeometry(*w.mesh, w.pos));
    degenerate = true;
  } else
    w = genGeneralTriGeo(g, 14, .04, 3);
  SurfaceMesh& m = *w.mesh;
  // the documented parameter is relative to the mean length
  double fac = degenerate ? std::pow(10., -g.real(1, 4)) : g.chance(.5) ? 0 : std::pow(10., -g.real(.3, 6));
  auto T = buildTuftedLaplacian(m, *w.vpg, fac);
  SparseMatrix<double>&L = std::get<0>(T), &M = std::get<1>(T);
  size_t n = m.nVertices();
  REQ(g, (size_t)L.rows() == n && (size_t)L.cols() == n && (size_t)M.rows() == n && (size_t)M.cols() == n, "sizes");
  MatL D = Eigen::MatrixXd(L).cast<LD>(), Q = Eigen::MatrixXd(M).cast<LD>();
  LD mx = D.cwiseAbs().maxCoeff();
  REQ(g, std::isfinite((double)mx) && std::isfinite((double)Q.sum()), "not finite");
  for (size_t i = 0; i < n; i++) {
    REQ(g, fabsl(D.row(i).sum()) < 1e-9L * mx, "row sum");
    for (size_t j = 0; j < n; j++) {
      REQ(g, fabsl(D(i, j) - D(j, i)) <= 1e-10L * mx, "not symmetric");
      if (i != j) {
        REQ(g, D(i, j) <= 1e-5L * fmaxl(1, 1e-6L * mx), "positive off-diagonal entry " << (double)D(i, j));
        REQ(g, Q(i, j) == 0, "mass matrix not diagonal");
      }
    }
  }
  if (degenerate) {
    g.label("degenerate");
    return;
  }
  // reference: the cover, from the cyclic order of the faces around every edge
  EdgeData<LD> len(m);
  LD mean = 0, eps = 0;
  for (Edge e : m.edges()) {
    len[e] = norm(V3L(w.pos[e.firstVertex()]) - V3L(w.pos[e.secondVertex()]));
    mean += len[e] / (LD)m.nEdges();
  }
  for (Face f : m.faces()) {
    LD a[3];
    int i = 0;
    for (Halfedge h : f.adjacentHalfedges()) a[i++] = len[h.edge()];
    for (i = 0; i < 3; i++) eps = fmaxl(eps, a[i] - a[(i + 1) % 3] - a[(i + 2) % 3] + mean * fac);
  }
  if (fac == 0) eps = 0;
  if (eps > 0) g.label("mollified");
  VertexData<size_t> vi = m.getVertexIndices();
  GluedTris t;
  t.nV = n;
  std::map<size_t, int> side; // halfedge -> side of the front triangle; the back triangle follows
  for (Face f : m.faces()) {
    Halfedge h[3];
    h[0] = f.halfedge();
    h[1] = h[0].next();
    h[2] = h[1].next();
    GluedTris::T a, b;
    size_t v[3];
    LD x[3];
    for (int i = 0; i < 3; i++) v[i] = vi[h[i].vertex()], x[i] = len[h[i].edge()] + eps;
    // back: v1, v0, v2 : sides v1v0 = side 0, v0v2 = side 2, v2v1 = side 1
    for (int i = 0; i < 3; i++) a.v[i] = v[i], a.l[i] = x[i], a.o[i] = b.o[i] = -1;
    b.v[0] = v[1];
    b.v[1] = v[0];
    b.v[2] = v[2];
    b.l[0] = x[0];
    b.l[1] = x[2];
    b.l[2] = x[1];
    for (int i = 0; i < 3; i++) side[h[i].getIndex()] = 3 * t.t.size() + i;
    t.t.push_back(a);
    t.t.push_back(b);
  }
  auto back = [](int s) { return 3 * (s / 3 + 1) + (s % 3 == 0 ? 0 : 3 - s % 3); };
  for (Edge e : m.edges()) {
    std::vector<std::pair<LD, Halfedge>> r;
    V3L a(w.pos[e.firstVertex()]), d = unit(V3L(w.pos[e.secondVertex()]) - a);
    V3L bx = fabsl(d.x) < .6L ? V3L(1, 0, 0) : V3L(0, 1, 0);
    bx = unit(cross(d, bx));
    V3L by = cross(d, bx);
    for (Halfedge h : e.adjacentHalfedges())
      if (h.isInterior()) {
        V3L p = V3L(w.pos[h.next().tipVertex()]) - a;
        r.push_back({atan2l(dot(by, p), dot(bx, p)), h});
      }
    std::sort(r.begin(), r.end(), [](const std::pair<LD, Halfedge>& x, const std::pair<LD, Halfedge>& y) { return x.first < y.first; });
    if (r.size() > 2) {
      g.label("nonmanifold edge");
      g.nontrivial();
      for (size_t i = 0; i < r.size(); i++) {
        LD q = r[(i + 1) % r.size()].first - r[i].first;
        if (q < 0) q += 2 * LPI;
        if (q < 1e-5L) g.discard(); // no order
      }
    }
    // side facing increasing angle of each face is glued to the side facing decreasing angle of the next one;
    // a sheet which runs along the direction of the edge faces one way, its other sheet the other way
    for (size_t i = 0; i < r.size(); i++) {
      Halfedge x = r[i].second, y = r[(i + 1) % r.size()].second;
      auto sheet = [&](Halfedge h, bool fwd) {
        bool f = h.tailVertex() == e.firstVertex();
        int s = side[h.getIndex()];
        return f == fwd ? s : back(s);
      };
      t.glue(sheet(x, true), sheet(y, false));
    }
  }
  t.delaunay(g, false);
  MatL B = t.laplacian() / 2;
  LD err = (D - B).cwiseAbs().maxCoeff();
  REQ(g, err < 1e-5L * mx, "tufted Laplacian differs by " << (double)(err / mx) << " of its largest entry");
  VecL ms = VecL::Zero(n);
  for (size_t k = 0; k < t.t.size(); k++)
    for (int i = 0; i < 3; i++) ms(t.t[k].v[i]) += t.area(k) / 6;
  LD tot = ms.sum();
  // the lumped masses depend on the triangulation where it is not unique
  bool unique = true;
  for (int s = 0; s < 3 * (int)t.t.size(); s++)
    if (t.score(s, false) < 1e-5L) unique = false;
  REQ_NEAR(g, (double)(Q.sum() / tot), 1., 1e-9, "total mass");
  if (unique)
    for (size_t i = 0; i < n; i++) REQ_NEAR(g, (double)(Q(i, i) / tot), (double)(ms(i) / tot), 1e-6, "mass of vertex " << i);
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C29",
                   "disks with and without interior vertices and index gaps, given by positions or lengths, scale factors and exterior angles; planar regions; "
                   "spheres with convex metrics in other triangulations than the convex one; surfaces to refuse; non-trivial: more than four faces or refused",
                   {{"bff", bff, 4000, 40000},
                    {"bffRefused", bffRefused, 800, 5000},
                    {"planar", planar, 1200, 12000},
                    {"uniformize", uniformize, 1200, 8000},
                    {"convex", convex, 2000, 40000},
                    {"convexRefused", convexRefused, 400, 2500}},
                   {"uniformization and parameterizeDisk where the damped iteration of the library converges steadily in long double (others are discarded)",
                    "convex metrics of well-shaped polyhedra; smaller steps are tried before a failure counts"}});
  specs.push_back({"C31",
                   "triangle meshes, manifold and not, with lengths which may violate the triangle inequality; non-trivial: lengths or edges change, or an edge has more than two faces",
                   {{"mollify", mollify, 12000, 60000},
                    {"idt", idt, 10000, 50000},
                    {"cover", cover, 6000, 30000},
                    {"tufted", tufted, 9000, 40000}},
                   {"faces around an edge at distinct angles (otherwise their order is arbitrary)"}});
  return pbt::run(argc, argv, specs);
}
