// C33: histories of MutationManager operations against a log and a state model
#pragma once
#include "mutate.h"

namespace mg {

struct MMWorld;
struct MMEvent {
  int policy;
  char phase; // b, a
  std::string what;
  bool operator<(const MMEvent& o) const { return std::tie(policy, phase, what) < std::tie(o.policy, o.phase, o.what); }
};
inline std::string num(double t) {
  std::ostringstream os;
  os.precision(9);
  os << t;
  return os.str();
}
inline std::string nums(const std::vector<double>& b) {
  std::string s;
  for (double x : b) s += (s.empty() ? "" : ",") + num(x);
  return s;
}

struct MMWorld {
  std::vector<MMEvent> log;
  std::string err;
  ManifoldSurfaceMesh* m;
  Model pre; // state before the current operation
  bool preValid = false;
  std::set<int> alive; // policy objects which exist
  void seeBefore(int id, const std::string& s) {
    log.push_back({id, 'b', s});
    if (!preValid) return;
    Model now = snap(*m);
    bool same = now.V == pre.V && now.F.size() == pre.F.size() && now.B.size() == pre.B.size();
    if (same)
      for (auto& f : pre.F) {
        auto it = now.F.find(f.first);
        if (it == now.F.end() || !sameCyc(f.second, it->second)) same = false;
        else {
          std::set<size_t> a, b;
          for (auto& x : f.second) a.insert(x.he);
          for (auto& x : it->second) b.insert(x.he);
          same = same && a == b;
        }
      }
    if (!same && err.empty()) err = "the mesh is already changed in a callback before " + s;
  }
  void seeAfter(int id, const std::string& s) { log.push_back({id, 'a', s}); }
};

class MMPolicy : public VertexRepositionPolicy, public EdgeFlipPolicy, public EdgeSplitPolicy, public EdgeCollapsePolicy, public FaceSplitPolicy {
public:
  MMWorld* w;
  int id;
  MMPolicy(MMWorld* w_, int id_) : w(w_), id(id_) { w->alive.insert(id); }
  ~MMPolicy() override { w->alive.erase(id); }
  void beforeVertexReposition(const Vertex& v, const Vector3& d) override { w->seeBefore(id, "move v" + std::to_string(v.getIndex()) + " " + num(d.x) + " " + num(d.y) + " " + num(d.z)); }
  void beforeEdgeFlip(const Edge& e) override { w->seeBefore(id, "flip e" + std::to_string(e.getIndex())); }
  void afterEdgeFlip(const Edge& e) override { w->seeAfter(id, "flip e" + std::to_string(e.getIndex())); }
  void beforeEdgeSplit(const Edge& e, const double& t) override { w->seeBefore(id, "split e" + std::to_string(e.getIndex()) + " " + num(t)); }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double& t) override {
    w->seeAfter(id, "split h" + std::to_string(a.getIndex()) + " h" + std::to_string(b.getIndex()) + " " + num(t));
  }
  void beforeEdgeCollapse(const Edge& e, const double& t) override { w->seeBefore(id, "collapse e" + std::to_string(e.getIndex()) + " " + num(t)); }
  void afterEdgeCollapse(const Vertex& v, const double& t) override { w->seeAfter(id, "collapse v" + std::to_string(v.getIndex()) + " " + num(t)); }
  void beforeFaceSplit(const Face& f, const std::vector<double>& b) override { w->seeBefore(id, "fsplit f" + std::to_string(f.getIndex()) + " " + nums(b)); }
  void afterFaceSplit(const Vertex& v, const std::vector<double>& b) override { w->seeAfter(id, "fsplit v" + std::to_string(v.getIndex()) + " " + nums(b)); }
};
class MMFlipOnly : public EdgeFlipPolicy { // listens to one kind of mutation
public:
  MMWorld* w;
  int id;
  MMFlipOnly(MMWorld* w_, int id_) : w(w_), id(id_) { w->alive.insert(id); }
  ~MMFlipOnly() override { w->alive.erase(id); }
  void beforeEdgeFlip(const Edge& e) override { w->seeBefore(id, "flip e" + std::to_string(e.getIndex())); }
  void afterEdgeFlip(const Edge& e) override { w->seeAfter(id, "flip e" + std::to_string(e.getIndex())); }
};
class MMSplits : public FaceSplitPolicy, public EdgeSplitPolicy {
public:
  MMWorld* w;
  int id;
  MMSplits(MMWorld* w_, int id_) : w(w_), id(id_) { w->alive.insert(id); }
  ~MMSplits() override { w->alive.erase(id); }
  void beforeEdgeSplit(const Edge& e, const double& t) override { w->seeBefore(id, "split e" + std::to_string(e.getIndex()) + " " + num(t)); }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double& t) override {
    w->seeAfter(id, "split h" + std::to_string(a.getIndex()) + " h" + std::to_string(b.getIndex()) + " " + num(t));
  }
  void beforeFaceSplit(const Face& f, const std::vector<double>& b) override { w->seeBefore(id, "fsplit f" + std::to_string(f.getIndex()) + " " + nums(b)); }
  void afterFaceSplit(const Vertex& v, const std::vector<double>& b) override { w->seeAfter(id, "fsplit v" + std::to_string(v.getIndex()) + " " + nums(b)); }
};

} // namespace mg

static void p_mutman(G& g) {
  GenOpts o;
  o.maxFaces = 24;
  o.size = 3;
  Geo gw = genTriGeo(g, o, true, .05, 2);
  ManifoldSurfaceMesh& m = *gw.man;
  VertexPositionGeometry& geo = *gw.vpg;
  bool conn = g.chance(.2); // connectivity only
  double ext = extent(gw), tol = 1e-9 * ext;
  MMWorld W;
  W.m = &m;
  std::unique_ptr<MutationManager> mmp(conn ? new MutationManager(m) : new MutationManager(m, geo));
  MutationManager& mm = *mmp;

  // listeners: 0.. = policy objects, the others through the handler functions
  struct L {
    int id, kind; // 0 all, 1 flips, 2 splits, 3 handlers with data, 4 pre only, 5 post only
  };
  std::vector<L> active;
  std::vector<std::unique_ptr<MutationPolicyHandle>> handles;
  std::vector<int> handleId;
  int nextId = 0;
  auto add = [&]() {
    int kind = (int)g.below(6), id = nextId++;
    if (kind <= 2) {
      MutationPolicy* p = kind == 0 ? (MutationPolicy*)new MMPolicy(&W, id) : kind == 1 ? (MutationPolicy*)new MMFlipOnly(&W, id) : (MutationPolicy*)new MMSplits(&W, id);
      handles.emplace_back(new MutationPolicyHandle(mm.registerPolicy(p)));
      handleId.push_back(id);
    } else {
      auto fb = [&W, id](Edge e) { W.seeBefore(id, "flip e" + std::to_string(e.getIndex())); };
      auto fa = [&W, id](Edge e) { W.seeAfter(id, "flip e" + std::to_string(e.getIndex())); };
      auto sb = [&W, id](Edge e, double t) { W.seeBefore(id, "split e" + std::to_string(e.getIndex()) + " " + num(t)); };
      auto sa = [&W, id](Halfedge a, Halfedge b, double t) { W.seeAfter(id, "split h" + std::to_string(a.getIndex()) + " h" + std::to_string(b.getIndex()) + " " + num(t)); };
      auto cb = [&W, id](Edge e, double t) { W.seeBefore(id, "collapse e" + std::to_string(e.getIndex()) + " " + num(t)); };
      auto ca = [&W, id](Vertex v, double t) { W.seeAfter(id, "collapse v" + std::to_string(v.getIndex()) + " " + num(t)); };
      auto pb = [&W, id](Face f, std::vector<double> b) { W.seeBefore(id, "fsplit f" + std::to_string(f.getIndex()) + " " + nums(b)); };
      auto pa = [&W, id](Vertex v) { W.seeAfter(id, "fsplit v" + std::to_string(v.getIndex())); };
      if (kind == 3) {
        mm.registerEdgeFlipHandlers([fb](Edge e) -> size_t { fb(e); return e.getIndex(); },
                                    [fa, &W](Edge e, size_t d) { fa(e); if (d != e.getIndex()) W.err = "wrong data passed to the flip callback"; });
        mm.registerEdgeSplitHandlers([sb](Edge e, double t) -> double { sb(e, t); return t; },
                                     [sa, &W](Halfedge a, Halfedge b, double t, double d) { sa(a, b, t); if (d != t) W.err = "wrong data passed to the split callback"; });
        mm.registerEdgeCollapseHandlers([cb](Edge e, double t) -> double { cb(e, t); return t; },
                                        [ca, &W](Vertex v, double t, double d) { ca(v, t); if (d != t) W.err = "wrong data passed to the collapse callback"; });
        mm.registerFaceSplitHandlers([pb](Face f, std::vector<double> b) -> int { pb(f, b); return (int)b.size(); },
                                     [pa, &W](Vertex v, int d) { pa(v); if (d != 3) W.err = "wrong data passed to the face split callback"; });
      } else if (kind == 4) {
        mm.registerEdgeFlipPreHandler(fb);
        mm.registerEdgeSplitPreHandler(sb);
        mm.registerEdgeCollapsePreHandler(cb);
        mm.registerFaceSplitPreHandler(pb);
      } else {
        mm.registerEdgeFlipPostHandler(fa);
        mm.registerEdgeSplitPostHandler(sa);
        mm.registerEdgeCollapsePostHandler(ca);
        mm.registerFaceSplitPostHandler(pa);
      }
    }
    active.push_back({id, kind});
  };
  int nl = g.range(1, 4);
  for (int i = 0; i < nl; i++) add();

  // constraints
  std::map<size_t, bool> rep, spl, col, flp, fsp; // by index; absent = default
  bool hasRep = false, hasSpl = false, hasCol = false, hasFlp = false, hasFsp = false, dRep = true, dSpl = true, dCol = true, dFlp = true, dFsp = true;
  auto setConstraint = [&](int k) {
    bool clear = g.chance(.25), def = g.chance(.8);
    if (k == 0) {
      rep.clear();
      hasRep = !clear;
      dRep = def;
      if (clear) return mm.clearRepositionableVertices();
      VertexData<bool> d(m, true);
      for (Vertex v : m.vertices()) rep[v.getIndex()] = d[v] = !g.chance(.25);
      return def ? mm.setRepositionableVertices(d) : mm.setRepositionableVertices(d, def);
    }
    if (k == 4) {
      fsp.clear();
      hasFsp = !clear;
      dFsp = def;
      if (clear) return mm.clearSplittableFaces();
      FaceData<bool> d(m, true);
      for (Face f : m.faces()) fsp[f.getIndex()] = d[f] = !g.chance(.3);
      return def ? mm.setSplittableFaces(d) : mm.setSplittableFaces(d, def);
    }
    std::map<size_t, bool>& c = k == 1 ? spl : k == 2 ? col : flp;
    (k == 1 ? hasSpl : k == 2 ? hasCol : hasFlp) = !clear;
    (k == 1 ? dSpl : k == 2 ? dCol : dFlp) = def;
    c.clear();
    if (clear) return k == 1 ? mm.clearSplittableEdges() : k == 2 ? mm.clearCollapsibleEdges() : mm.clearFlippableEdges();
    EdgeData<bool> d(m, true);
    for (Edge e : m.edges()) c[e.getIndex()] = d[e] = !g.chance(.3);
    if (k == 1) mm.setSplittableEdges(d, def);
    else if (k == 2) mm.setCollapsibleEdges(d, def);
    else mm.setFlippableEdges(d, def);
  };
  auto get = [](bool has, std::map<size_t, bool>& c, bool def, size_t i) { return !has || (c.count(i) ? c[i] : def); };

  // expected events
  auto expect = [&](char kind, bool before, bool after, const std::string& b, const std::string& a, const std::string& aShort) {
    std::vector<MMEvent> r;
    for (auto& l : active) {
      bool hears = l.kind == 0 || (l.kind == 1 && kind == 'f') || (l.kind == 2 && (kind == 's' || kind == 'p')) || (l.kind >= 3 && kind != 'm');
      if (!hears) continue;
      if (before && l.kind != 5) r.push_back({l.id, 'b', b});
      if (after && l.kind != 4) r.push_back({l.id, 'a', l.kind >= 3 ? aShort : a});
    }
    std::sort(r.begin(), r.end());
    return r;
  };
  auto checkLog = [&](std::vector<MMEvent> want, const std::string& when) {
    REQ(g, W.err.empty(), when << ": " << W.err);
    bool seenAfter = false;
    for (auto& e : W.log) {
      if (e.phase == 'a') seenAfter = true;
      else REQ(g, !seenAfter, when << ": a before callback is called after the mutation");
    }
    std::vector<MMEvent> got = W.log;
    std::sort(got.begin(), got.end());
    auto show = [](const std::vector<MMEvent>& v) {
      std::string s;
      for (auto& e : v) s += " [" + std::to_string(e.policy) + e.phase + " " + e.what + "]";
      return s.empty() ? std::string(" none") : s;
    };
    bool same = got.size() == want.size();
    for (size_t i = 0; same && i < got.size(); i++) same = !(got[i] < want[i]) && !(want[i] < got[i]);
    REQ(g, same, when << ": callbacks" << show(got) << ", expected" << show(want));
    W.log.clear();
  };

  int n = g.range(1, 14), changed = 0;
  std::map<std::string, int> cnt;
  for (int step = 0; step < n && m.nFaces() < 60; step++) {
    std::map<size_t, Vector3> pos;
    for (Vertex v : m.vertices()) pos[v.getIndex()] = geo.inputVertexPositions[v];
    W.pre = snap(m);
    W.preValid = true;
    std::string when = "step " + std::to_string(step) + ": ";
    size_t moved = INVALID_IND;
    Vector3 movedTo{0, 0, 0};
    int op = g.weighted({3, 5, 5, 5, 4, 3, 2, 1});
    auto posT = [&](Edge e, double& t, int& mode, Vector3& p) { // how to give the location
      Vector3 a = pos[e.halfedge().tailVertex().getIndex()], b = pos[e.halfedge().tipVertex().getIndex()];
      mode = conn ? 0 : (int)g.below(3);
      t = g.chance(.3) ? .5 : g.unit();
      p = (1 - t) * a + t * b;
      if (mode == 1) { // a position: the parameter is the nearest point of the edge
        double s = norm(b - a);
        p = p + Vector3{g.jitter(.4 * s), g.jitter(.4 * s), g.jitter(.4 * s)};
        LD q = dot(V3L(p) - V3L(a), V3L(b) - V3L(a)) / dot(V3L(b) - V3L(a), V3L(b) - V3L(a));
        t = (double)fminl(1, fmaxl(0, q));
      }
      if (mode == 2) p = p + Vector3{g.jitter(.1 * norm(b - a)), g.jitter(.1 * norm(b - a)), g.jitter(.1 * norm(b - a))};
    };
    // parameters computed from a position are compared with a tolerance: take what the first listener saw if it is close
    auto fixT = [&](double t) {
      for (auto& e : W.log) {
        size_t k = e.what.rfind(' ');
        double s = std::atof(e.what.c_str() + k + 1);
        if (std::fabs(s - t) < 1e-6 * (1 + ext / gw.scale)) return e.what.substr(k + 1);
        break;
      }
      return num(t);
    };
    if (op == 0) {
      Vertex v = pickVertex(g, m);
      Vector3 d{g.jitter(gw.scale), g.jitter(gw.scale), g.jitter(gw.scale)};
      when += "repositionVertex(v" + std::to_string(v.getIndex()) + ")";
      bool want = get(hasRep, rep, dRep, v.getIndex());
      REQ(g, mm.mayRepositionVertex(v) == want, when << ": mayRepositionVertex is " << !want);
      bool r = mm.repositionVertex(v, d);
      REQ(g, r == want, when << " returned " << r);
      checkLog(expect('m', r, false, "move v" + std::to_string(v.getIndex()) + " " + num(d.x) + " " + num(d.y) + " " + num(d.z), "", ""), when);
      if (r) {
        moved = v.getIndex();
        movedTo = pos[moved] + d;
        changed++;
      }
      compare(g, W.pre, snap(m), when);
    } else if (op == 1) {
      Edge e = pickEdge(g, m);
      when += "flipEdge(e" + std::to_string(e.getIndex()) + ")";
      bool may = get(hasFlp, flp, dFlp, e.getIndex());
      REQ(g, mm.mayFlipEdge(e) == may, when << ": mayFlipEdge is " << !may);
      std::unique_ptr<ManifoldSurfaceMesh> c = m.copy();
      bool can = may && c->flip(c->edge(e.getIndex()));
      Halfedge h = e.halfedge();
      Vertex va = h.tailVertex(), vb = h.tipVertex(), vc, vd;
      if (!e.isBoundary()) {
        vc = h.next().tipVertex();
        vd = h.twin().next().tipVertex();
      }
      bool r = mm.flipEdge(e);
      REQ(g, r == can, when << " returned " << r << ", expected " << can);
      std::string s = "flip e" + std::to_string(e.getIndex());
      checkLog(expect('f', r, r, s, s, s), when);
      if (r) {
        changed++;
        cnt["flip"]++;
        REQ(g, mk(e.firstVertex().getIndex(), e.secondVertex().getIndex()) == mk(vc.getIndex(), vd.getIndex()), when << ": wrong endpoints after the flip");
        Model got = snap(m);
        REQ(g, got.V == W.pre.V && got.F.size() == W.pre.F.size(), when << ": element counts changed");
        int differ = 0;
        for (auto& f : W.pre.F) differ += !got.F.count(f.first) || !sameCyc(f.second, got.F[f.first]);
        REQ(g, differ == 2, when << ": " << differ << " faces differ");
        (void)va;
        (void)vb;
      } else
        compare(g, W.pre, snap(m), when);
    } else if (op == 2) {
      Edge e = pickEdge(g, m);
      double t;
      int mode;
      Vector3 p;
      if (!e.isBoundary() && e.halfedge().face() == e.halfedge().twin().face()) continue; // (see C04)
      posT(e, t, mode, p);
      when += "splitEdge(e" + std::to_string(e.getIndex()) + (mode == 0 ? ", t)" : mode == 1 ? ", position)" : ", t, position)");
      bool may = get(hasSpl, spl, dSpl, e.getIndex());
      REQ(g, mm.maySplitEdge(e) == may, when << ": maySplitEdge is " << !may);
      Halfedge h = e.halfedge();
      size_t va = h.tailVertex().getIndex(), vb = h.tipVertex().getIndex();
      bool bnd = e.isBoundary();
      size_t ei = e.getIndex();
      bool oS = get(hasSpl, spl, dSpl, ei), oF = get(hasFlp, flp, dFlp, ei);
      bool oC = !hasCol || (col.count(ei) ? col[ei] : dCol);
      if (!get(hasRep, rep, dRep, va) || !get(hasRep, rep, dRep, vb)) oC = false;
      size_t nE = m.nEdges(), nF = m.nFaces(), nV = m.nVertices();
      Halfedge r = mode == 0 ? mm.splitEdge(e, t) : mode == 1 ? mm.splitEdge(e, p) : mm.splitEdge(e, t, p);
      REQ(g, (r != Halfedge()) == may, when << (may ? ": the edge was not split" : ": an edge which may not be split was split"));
      if (!may) {
        checkLog({}, when);
        compare(g, W.pre, snap(m), when);
      } else {
        changed++;
        cnt["split"]++;
        Vertex nv = r.vertex();
        REQ(g, !W.pre.V.count(nv.getIndex()), when << ": the halfedge does not point away from the new vertex");
        REQ(g, r.tipVertex().getIndex() == vb, when << ": the returned halfedge is not the front part of the edge");
        Halfedge back;
        for (Halfedge x : nv.outgoingHalfedges())
          if (x.tipVertex().getIndex() == va) back = x;
        REQ(g, back != Halfedge(), when << ": the new vertex is not connected to the tail of the edge");
        REQ(g, r.edge().halfedge() == r, when << ": the direction of the front edge changed");
        REQ(g, back.twin().edge().halfedge() == back.twin(), when << ": the direction of the back edge changed");
        std::string ts = fixT(t), hs = "split h" + std::to_string(r.getIndex()) + " h" + std::to_string(back.getIndex()) + " " + ts;
        checkLog(expect('s', true, true, "split e" + std::to_string(ei) + " " + ts, hs, hs), when);
        REQ(g, m.nVertices() == nV + 1 && m.nEdges() == nE + (bnd ? 2 : 3) && m.nFaces() == nF + (bnd ? 1 : 2), when << ": element counts");
        // constraints are inherited by the halves
        for (size_t i : {r.edge().getIndex(), back.edge().getIndex()}) {
          if (hasSpl) spl[i] = oS;
          if (hasFlp) flp[i] = oF;
          if (hasCol) col[i] = oC;
        }
        moved = nv.getIndex();
        movedTo = p;
      }
    } else if (op == 3) {
      Edge e = pickEdge(g, m);
      if (hasSelfEdgeOrDup(W.pre)) continue; // collapses need a simplicial complex (see C06)
      double t;
      int mode;
      Vector3 p;
      posT(e, t, mode, p);
      size_t ei = e.getIndex(), va = e.halfedge().tailVertex().getIndex(), vb = e.halfedge().tipVertex().getIndex();
      when += "collapseEdge(e" + std::to_string(ei) + (mode == 0 ? ", t)" : mode == 1 ? ", position)" : ", t, position)");
      bool may = get(hasCol, col, dCol, ei) && get(hasRep, rep, dRep, va) && get(hasRep, rep, dRep, vb);
      REQ(g, mm.mayCollapseEdge(e) == may, when << ": mayCollapseEdge is " << !may);
      std::unique_ptr<ManifoldSurfaceMesh> c = m.copy();
      bool can = may && c->collapseEdgeTriangular(c->edge(ei)) != Vertex();
      Vertex r = mode == 0 ? mm.collapseEdge(e, t) : mode == 1 ? mm.collapseEdge(e, p) : mm.collapseEdge(e, t, p);
      REQ(g, (r != Vertex()) == can, when << (can ? ": the edge was not collapsed" : ": an edge which cannot be collapsed was collapsed"));
      std::string ts = fixT(t), b = "collapse e" + std::to_string(ei) + " " + ts;
      if (!can) {
        // (the before callbacks may have been called)
        if (!may) checkLog({}, when);
        else {
          for (auto& x : W.log) REQ(g, x.phase == 'b', when << ": an after callback is called although nothing was collapsed");
          W.log.clear();
        }
        compare(g, W.pre, snap(m), when);
      } else {
        changed++;
        cnt["collapse"]++;
        REQ(g, r.getIndex() == va || r.getIndex() == vb, when << ": the remaining vertex is not an endpoint of the edge");
        std::string a = "collapse v" + std::to_string(r.getIndex()) + " " + ts;
        checkLog(expect('c', true, true, b, a, a), when);
        moved = r.getIndex();
        movedTo = p;
      }
    } else if (op == 4) {
      Face f = pickFace(g, m);
      std::vector<double> bary{g.unit() + .05, g.unit() + .05, g.unit() + .05};
      double s = bary[0] + bary[1] + bary[2];
      for (double& x : bary) x /= s;
      bool withPos = !conn && g.coin();
      Vector3 p{0, 0, 0};
      size_t k = 0, fi = f.getIndex();
      for (Vertex v : f.adjacentVertices()) p += bary[k++] * pos[v.getIndex()];
      if (withPos) p += Vector3{g.jitter(.1 * gw.scale), g.jitter(.1 * gw.scale), g.jitter(.1 * gw.scale)};
      when += "splitFace(f" + std::to_string(fi) + ")";
      bool may = get(hasFsp, fsp, dFsp, fi);
      REQ(g, mm.maySplitFace(f) == may, when << ": maySplitFace is " << !may);
      size_t nE = m.nEdges(), nF = m.nFaces(), nV = m.nVertices();
      Cyc cyc = W.pre.F[fi];
      Vertex r = withPos ? mm.splitFace(f, bary, p) : mm.splitFace(f, bary);
      REQ(g, (r != Vertex()) == may, when << (may ? ": the face was not split" : ": a face which may not be split was split"));
      if (!may) {
        checkLog({}, when);
        compare(g, W.pre, snap(m), when);
      } else {
        changed++;
        cnt["face split"]++;
        REQ(g, !W.pre.V.count(r.getIndex()) && r.degree() == 3, when << ": not a new vertex of degree 3");
        std::set<size_t> a, b;
        for (Vertex u : r.adjacentVertices()) a.insert(u.getIndex());
        for (auto& x : cyc) b.insert(x.tail);
        REQ(g, a == b, when << ": the new vertex is not connected to the corners of the face");
        std::string s2 = "fsplit v" + std::to_string(r.getIndex());
        checkLog(expect('p', true, true, "fsplit f" + std::to_string(fi) + " " + nums(bary), s2 + " " + nums(bary), s2), when);
        REQ(g, m.nVertices() == nV + 1 && m.nEdges() == nE + 3 && m.nFaces() == nF + 2, when << ": element counts");
        moved = r.getIndex();
        movedTo = p;
      }
    } else if (op == 5) {
      setConstraint((int)g.below(5));
      continue;
    } else if (op == 6) {
      if (!handles.empty() && g.chance(.7)) {
        size_t k = g.below(handles.size());
        int id = handleId[k];
        if (g.coin()) handles[k]->remove();
        else mm.removePolicy(*handles[k]);
        REQ(g, !W.alive.count(id), "a removed policy was not deleted");
        handles.erase(handles.begin() + k);
        handleId.erase(handleId.begin() + k);
        for (size_t i = 0; i < active.size(); i++)
          if (active[i].id == id) {
            active.erase(active.begin() + i);
            break;
          }
        g.label("policy removed");
      } else
        add();
      continue;
    } else {
      m.compress();
      // indices changed: forget the constraints (the containers follow the mesh)
      for (int k = 0; k < 5; k++) {
        std::map<size_t, bool>& c = k == 0 ? rep : k == 1 ? spl : k == 2 ? col : k == 3 ? flp : fsp;
        bool has = k == 0 ? hasRep : k == 1 ? hasSpl : k == 2 ? hasCol : k == 3 ? hasFlp : hasFsp;
        c.clear();
        if (!has) continue;
        if (k == 0) for (Vertex v : m.vertices()) c[v.getIndex()] = mm.repositionableVertices[v];
        else if (k == 4) for (Face f : m.faces()) c[f.getIndex()] = mm.splittableFaces[f];
        else for (Edge e : m.edges()) c[e.getIndex()] = (k == 1 ? mm.splittableEdges : k == 2 ? mm.collapsibleEdges : mm.flippableEdges)[e];
      }
      continue;
    }
    checkStructure(g, m, when);
    for (Vertex v : m.vertices()) {
      size_t i = v.getIndex();
      Vector3 got = geo.inputVertexPositions[v];
      if (i == moved && !conn) REQ(g, near(got, movedTo, tol), when << ": vertex v" << i << " is at " << strV(got) << ", expected " << strV(movedTo));
      else if (pos.count(i)) REQ(g, got == pos[i], when << ": vertex v" << i << " moved");
    }
    // constraints: as set, inherited by split edges, default for new elements
    for (Edge e : m.edges()) {
      size_t i = e.getIndex();
      REQ(g, mm.maySplitEdge(e) == get(hasSpl, spl, dSpl, i), when << ": maySplitEdge(e" << i << ") is " << mm.maySplitEdge(e));
      REQ(g, mm.mayFlipEdge(e) == get(hasFlp, flp, dFlp, i), when << ": mayFlipEdge(e" << i << ") is " << mm.mayFlipEdge(e));
      bool c = get(hasCol, col, dCol, i) && get(hasRep, rep, dRep, e.firstVertex().getIndex()) && get(hasRep, rep, dRep, e.secondVertex().getIndex());
      REQ(g, mm.mayCollapseEdge(e) == c, when << ": mayCollapseEdge(e" << i << ") is " << !c);
    }
    for (Vertex v : m.vertices()) REQ(g, mm.mayRepositionVertex(v) == get(hasRep, rep, dRep, v.getIndex()), when << ": mayRepositionVertex(v" << v.getIndex() << ")");
    for (Face f : m.faces())
      if (W.pre.F.count(f.getIndex())) REQ(g, mm.maySplitFace(f) == get(hasFsp, fsp, dFsp, f.getIndex()), when << ": maySplitFace(f" << f.getIndex() << ")");
  }
  mmp.reset();
  REQ(g, W.alive.empty(), "policies are not deleted with the manager");
  if (changed >= 3) g.nontrivial();
  for (auto& c : cnt) g.label(c.first);
  if (conn) g.label("connectivity only");
}
