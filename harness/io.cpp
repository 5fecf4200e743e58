// C22: mesh files and SimplePolygonMesh
// C23: RichSurfaceMeshData
#include "geomutil.h"
#include "meshcheck.h"
#include "mutate.h"
#include "pbt_main.h"

#include "geometrycentral/surface/meshio.h"
#include "geometrycentral/surface/rich_surface_mesh_data.h"
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include "geometrycentral/surface/surface_mesh_factories.h"

#include <cstdlib>
#include <dirent.h>
#include <unistd.h>

using namespace mg;

// ---------------------------------------------------------------- scratch files

struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/gcioXXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    dir = t;
  }
  std::string path(const std::string& n) { return dir + "/" + n; }
  ~Scratch() {
    if (DIR* d = opendir(dir.c_str())) {
      while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") unlink((dir + "/" + n).c_str());
      }
      closedir(d);
    }
    rmdir(dir.c_str());
  }
};
static std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static void spew(const std::string& f, const std::string& c) {
  std::ofstream o(f, std::ios::binary);
  o << c;
}

// ---------------------------------------------------------------- generators

static double anyReal(G& g) {
  switch (g.weighted({6, 2, 2, 1, 1})) {
  case 0: return g.jitter(2);
  case 1: return g.range(-3, 3);
  case 2: return std::ldexp(g.jitter(1), g.range(-300, 300));
  case 3: return g.coin() ? 0. : -0.;
  default: {
    const double v[] = {1e308, -1e-307, 4.9e-300, 0.1, 1. / 3, 123456789.123456789, 2.2250738585072014e-308, 1e22, 1e23};
    return v[g.below(9)];
  }
  }
}
static bool same(double a, double b) { return a == b && std::signbit(a) == std::signbit(b); }
static bool same(Vector3 a, Vector3 b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z); }
static bool same(Vector2 a, Vector2 b) { return same(a.x, b.x) && same(a.y, b.y); }

struct SPM {
  Polys polys;
  std::vector<Vector3> pos;
  std::vector<std::vector<Vector2>> uv;
};
static SPM genSPM(G& g, int maxV, int maxF, bool uvAllowed, bool simple, bool wild = true) {
  SPM s;
  int nv = g.range(3, maxV), nf = g.range(0, maxF);
  for (int i = 0; i < nv; i++) s.pos.push_back(wild ? Vector3{anyReal(g), anyReal(g), anyReal(g)} : Vector3{g.jitter(1), g.jitter(1), g.jitter(1)});
  for (int i = 0; i < nf; i++) {
    int d = std::min(nv, 3 + (int)g.weighted({5, 3, 1, 1, 1}));
    std::vector<size_t> f;
    if (simple) {
      auto p = g.perm(nv);
      f.assign(p.begin(), p.begin() + d);
    } else {
      for (int j = 0; j < d; j++) f.push_back(g.below(nv));
    }
    s.polys.push_back(f);
  }
  if (uvAllowed && nf && g.coin()) {
    bool some = g.chance(.3);
    for (auto& f : s.polys) {
      s.uv.emplace_back();
      if (some && g.coin()) continue;
      for (size_t j = 0; j < f.size(); j++) s.uv.back().push_back(wild ? Vector2{anyReal(g), anyReal(g)} : Vector2{g.jitter(1), g.jitter(1)});
    }
    bool any = false;
    for (auto& u : s.uv) any = any || !u.empty();
    if (!any) s.uv.clear();
  }
  return s;
}
static std::string describe(const SPM& s) {
  std::ostringstream o;
  o << s.pos.size() << " vertices, faces " << str(s.polys) << (s.uv.empty() ? "" : ", with coordinates");
  return o.str();
}
static void compareSPM(G& g, const SimplePolygonMesh& m, const SPM& w, const std::string& when, bool pos = true) {
  REQ(g, m.polygons == w.polys, when << "polygons are " << str(m.polygons) << ", expected " << str(w.polys));
  REQ(g, m.vertexCoordinates.size() == w.pos.size(), when << m.vertexCoordinates.size() << " vertices, expected " << w.pos.size());
  if (pos)
    for (size_t i = 0; i < w.pos.size(); i++)
      REQ(g, same(m.vertexCoordinates[i], w.pos[i]), when << "vertex " << i << " is at " << m.vertexCoordinates[i] << ", expected " << w.pos[i]);
  REQ(g, m.hasParameterization() == !w.uv.empty(), when << "hasParameterization is " << m.hasParameterization());
  REQ(g, m.paramCoordinates.size() == w.uv.size(), when << m.paramCoordinates.size() << " coordinate lists, expected " << w.uv.size());
  for (size_t i = 0; i < w.uv.size(); i++) {
    REQ(g, m.paramCoordinates[i].size() == w.uv[i].size(), when << m.paramCoordinates[i].size() << " coordinates for face " << i << " of degree " << w.polys[i].size() << ", expected " << w.uv[i].size());
    for (size_t j = 0; j < w.uv[i].size(); j++)
      REQ(g, same(m.paramCoordinates[i][j], w.uv[i][j]), when << "coordinate " << j << " of face " << i << " is " << m.paramCoordinates[i][j] << ", expected " << w.uv[i][j]);
  }
}

static std::string fmt(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

// ---------------------------------------------------------------- OBJ round trip

static void objRoundTrip(G& g) {
  SPM s = genSPM(g, 14, 14, true, false);
  if (s.polys.empty() && g.coin()) g.discard();
  g.note(describe(s));
  if (s.polys.size() > 2) g.nontrivial();
  if (!s.uv.empty()) g.label("with coordinates");
  SimplePolygonMesh m(s.polys, s.pos, s.uv);
  int how = g.range(0, 2);
  SimplePolygonMesh r;
  std::string text;
  if (how == 0) {
    std::stringstream ss;
    m.writeMesh(ss, "obj");
    text = ss.str();
    r = SimplePolygonMesh(ss, "obj");
  } else {
    Scratch sc;
    std::string f = sc.path(how == 1 ? "a.b.OBJ" : "mesh.obj");
    m.writeMesh(f, how == 1 ? "" : "obj");
    text = slurp(f);
    if (g.coin()) {
      std::string det;
      r.readMeshFromFile(f, how == 1 ? "" : "obj", det);
      REQ(g, det == "obj", "detected type " << det);
    } else
      r = SimplePolygonMesh(f);
    if (g.coin()) { // read again into a mesh which already holds something
      r.readMeshFromFile(f, "");
    }
  }
  compareSPM(g, m, s, "writing changed the mesh: ");
  compareSPM(g, r, s, "after a round trip: ");
  REQ(g, r.nFaces() == s.polys.size() && r.nVertices() == s.pos.size(), "counts");
  r.clear();
  REQ(g, r.nFaces() == 0 && r.nVertices() == 0 && !r.hasParameterization(), "clear()");
  REQ_THROWS(g, m.writeMesh(std::cerr, "xyz"), "unknown file type");
  std::stringstream t(text);
  REQ_THROWS(g, r.readMeshFromFile(t, "xyz"), "unknown file type");
  REQ_THROWS(g, SimplePolygonMesh("/nonexistent-dir/x.obj"), "missing file");
  REQ_THROWS(g, SimplePolygonMesh("/nonexistent-dir/x.gltf"), "unknown extension");
}

// ---------------------------------------------------------------- OBJ dialects

static std::string eolOf(G& g, bool crlf) { return crlf ? "\r\n" : "\n"; }
static std::string sp(G& g) {
  const char* s[] = {" ", " ", " ", "  ", "\t", " \t "};
  return s[g.below(6)];
}

static void objDialect(G& g) {
  SPM w;
  std::vector<Vector2> vt;
  size_t nvn = 0;
  std::string out;
  bool crlf = g.chance(.25);
  std::string eol = eolOf(g, crlf);
  if (g.coin()) out += "# a comment v 1 2 3" + eol;
  bool anyUV = false;
  int n = g.range(4, 24);
  auto noise = [&]() {
    const char* t[] = {"", "# c", "o thing", "g a b", "s off", "usemtl m", "mtllib x.mtl", "vp 0.1 0.2", "l 1 2", "  ", "#f 1 2 3"};
    out += std::string(t[g.below(11)]) + eol;
  };
  auto vertex = [&]() {
    Vector3 p{anyReal(g), anyReal(g), anyReal(g)};
    out += std::string(g.chance(.1) ? " " : "") + "v" + sp(g) + fmt(p.x) + sp(g) + fmt(p.y) + sp(g) + fmt(p.z);
    if (g.chance(.1)) out += " 1.0";            // homogeneous coordinate
    if (g.chance(.1)) out += " 0.5 0.25 0.125"; // vertex colours
    if (g.chance(.1)) out += " ";
    out += eol;
    w.pos.push_back(p);
  };
  for (int i = 0; i < 3; i++) vertex();
  for (int i = 0; i < n; i++) {
    switch (g.weighted({4, 3, 1, 4, 1})) {
    case 0: vertex(); break;
    case 1: {
      Vector2 c{anyReal(g), anyReal(g)};
      out += "vt" + sp(g) + fmt(c.x) + sp(g) + fmt(c.y) + (g.chance(.2) ? " 0" : "") + eol;
      vt.push_back(c);
      break;
    }
    case 2:
      out += "vn 0 0 1" + eol;
      nvn++;
      break;
    case 3: {
      int d = 3 + (int)g.weighted({4, 2, 1, 1});
      bool useT = !vt.empty() && g.coin(), useN = nvn > 0 && g.coin();
      bool slashAlways = g.chance(.1), neg = g.chance(.3), cont = g.chance(.2);
      std::vector<size_t> f;
      std::vector<Vector2> uv;
      std::string line = "f";
      for (int j = 0; j < d; j++) {
        if (cont && j == d / 2) {
          line += std::string(" \\") + (g.chance(.2) ? " " : "") + eol;
          g.label("continuation");
        }
        size_t v = g.below(w.pos.size());
        f.push_back(v);
        auto idx = [&](size_t i, size_t cnt) { return neg ? "-" + std::to_string(cnt - i) : std::to_string(i + 1); };
        line += sp(g) + idx(v, w.pos.size());
        if (useT) {
          size_t t = g.below(vt.size());
          uv.push_back(vt[t]);
          line += "/" + idx(t, vt.size());
        } else if (useN || slashAlways)
          line += "/";
        if (useN)
          line += "/" + idx(g.below(nvn), nvn);
        else if (slashAlways)
          line += "/";
      }
      if (neg) g.label("negative indices");
      if (g.chance(.2)) line += " ";
      out += line + eol;
      w.polys.push_back(f);
      w.uv.push_back(uv);
      anyUV = anyUV || useT;
      break;
    }
    default: noise();
    }
  }
  if (g.coin() && !crlf) out.pop_back(); // no newline at the end of the file
  if (!anyUV) w.uv.clear();
  g.note(out);
  if (w.polys.size() > 1) g.nontrivial();
  if (crlf) g.label("CRLF");
  std::stringstream in(out);
  SimplePolygonMesh m(in, "obj");
  compareSPM(g, m, w, "");
}

// ---------------------------------------------------------------- OFF

static void offDialect(G& g) {
  SPM s = genSPM(g, 10, 10, false, false);
  bool crlf = g.chance(.25), colors = g.chance(.3), edgesCount = g.chance(.8);
  std::string eol = eolOf(g, crlf), out;
  auto filler = [&]() {
    while (g.chance(.15)) out += (g.coin() ? std::string("# comment 1 2 3") : std::string("")) + eol;
  };
  filler();
  out += "OFF" + eol;
  filler();
  out += std::to_string(s.pos.size()) + " " + std::to_string(s.polys.size()) + (edgesCount ? " 0" : "") + eol;
  for (Vector3 p : s.pos) {
    filler();
    out += fmt(p.x) + sp(g) + fmt(p.y) + sp(g) + fmt(p.z) + (colors ? " 255 0 0 255" : "") + eol;
  }
  std::vector<size_t> lineEnds{out.size()};
  for (auto& f : s.polys) {
    filler();
    out += std::to_string(f.size());
    for (size_t v : f) out += sp(g) + std::to_string(v);
    out += (colors && g.coin() ? " 3 0.5 0.5 0.5" : "") + eol;
    lineEnds.push_back(out.size());
  }
  g.note(out);
  if (s.polys.size() > 1) g.nontrivial();
  {
    std::stringstream in(out);
    SimplePolygonMesh m(in, "off");
    compareSPM(g, m, s, "");
  }
  // too short or malformed: rejected
  if (!s.polys.empty()) {
    std::string bad = out.substr(0, lineEnds[lineEnds.size() - 2]);
    std::stringstream in(bad);
    REQ_THROWS(g, SimplePolygonMesh(in, "off"), "last face missing");
    std::stringstream in2(bad + "3 0 1" + eol);
    REQ_THROWS(g, SimplePolygonMesh(in2, "off"), "face line with too few indices");
    std::stringstream in3(out.substr(out.find("OFF") + 3));
    REQ_THROWS(g, SimplePolygonMesh(in3, "off"), "no header");
  }
}

// ---------------------------------------------------------------- STL

static void stl(G& g) {
  int nf = g.range(1, 10);
  std::vector<Vector3> pool;
  int np = g.range(3, 8);
  for (int i = 0; i < np; i++) {
    Vector3 p;
    for (int j = 0; j < 3; j++) p[j] = g.chance(.2) ? (double)g.range(-1, 1) : (double)(float)std::ldexp(g.jitter(1), g.range(-3, 3));
    pool.push_back(p);
  }
  bool ascii = g.coin(), crlf = g.chance(.2), noNormal = g.chance(.2), upper = g.chance(.1);
  std::string eol = eolOf(g, crlf);
  std::vector<std::array<size_t, 3>> tris;
  std::vector<Vector3> normals, want;
  std::vector<bool> flat;
  for (int i = 0; i < nf; i++) {
    auto p = g.perm(np);
    tris.push_back({p[0], p[1], p[2]});
    Vector3 a = pool[p[0]], b = pool[p[1]], c = pool[p[2]], n = cross(b - a, c - a);
    double l = norm(n);
    bool deg = !(l > 1e-3 * norm(b - a) * norm(c - a)) || l < 1e-6;
    flat.push_back(deg);
    if (deg || noNormal)
      n = Vector3{0, 0, 0};
    else {
      n = n / l;
      if (g.coin()) n = -n;
      for (int j = 0; j < 3; j++) n[j] = (double)(float)n[j];
    }
    normals.push_back(n);
  }
  std::string out;
  std::vector<size_t> ends;
  if (ascii) {
    out = std::string(upper ? "SOLID" : "solid") + (g.coin() ? " a name" : "") + eol;
    ends.push_back(out.size());
    for (int i = 0; i < nf; i++) {
      std::string in = g.coin() ? "  " : "";
      out += in + "facet normal " + fmt(normals[i].x) + " " + fmt(normals[i].y) + " " + fmt(normals[i].z) + eol + in + "outer loop" + eol;
      for (size_t v : tris[i]) out += in + in + "vertex " + fmt(pool[v].x) + " " + fmt(pool[v].y) + " " + fmt(pool[v].z) + eol;
      out += in + "endloop" + eol + in + "endfacet" + eol;
      ends.push_back(out.size());
    }
    out += "endsolid" + eol;
  } else {
    out = std::string(80, ' ');
    out[0] = 'x';
    auto raw = [&](const void* p, size_t n) { out.append((const char*)p, n); };
    uint32_t c = nf;
    raw(&c, 4);
    auto rv = [&](Vector3 v) {
      for (int j = 0; j < 3; j++) {
        float f = (float)v[j];
        raw(&f, 4);
      }
    };
    ends.push_back(out.size());
    for (int i = 0; i < nf; i++) {
      rv(normals[i]);
      for (size_t v : tris[i]) rv(pool[v]);
      uint16_t a = (uint16_t)g.below(65536);
      raw(&a, 2);
      ends.push_back(out.size());
    }
  }
  g.label(ascii ? "ascii" : "binary");
  if (nf > 1) g.nontrivial();
  if (ascii)
    g.note(out);
  else
    g.note("binary stl, ", nf, " triangles");
  auto check = [&](const SimplePolygonMesh& m, const std::string& w) {
    REQ(g, m.nFaces() == (size_t)nf, w << m.nFaces() << " faces, expected " << nf);
    for (int i = 0; i < nf; i++) {
      REQ(g, m.polygons[i].size() == 3, w << "degree");
      std::vector<Vector3> got, exp;
      for (int j = 0; j < 3; j++) {
        got.push_back(m.vertexCoordinates.at(m.polygons[i][j]));
        exp.push_back(pool[tris[i][j]]);
      }
      // the order agrees with the normal where there is one
      Vector3 n = cross(exp[1] - exp[0], exp[2] - exp[0]);
      bool rev = !flat[i] && !noNormal && dot(n, normals[i]) < 0;
      if (rev) std::reverse(exp.begin(), exp.end());
      bool ok = false;
      for (int k = 0; k < 3; k++) ok = ok || (got[0] == exp[k] && got[1] == exp[(k + 1) % 3] && got[2] == exp[(k + 2) % 3]);
      REQ(g, ok, w << "triangle " << i << " is " << got[0] << got[1] << got[2] << ", expected " << exp[0] << exp[1] << exp[2]);
    }
  };
  std::stringstream in(out);
  SimplePolygonMesh m(in, "stl");
  REQ(g, m.nVertices() == 3 * (size_t)nf, "one vertex per corner before merging");
  check(m, "read: ");
  std::set<std::array<double, 3>> distinct;
  for (auto& t : tris)
    for (size_t v : t) distinct.insert({pool[v].x + 0., pool[v].y + 0., pool[v].z + 0.});
  SimplePolygonMesh mm = m;
  mm.mergeIdenticalVertices();
  REQ(g, mm.nVertices() == distinct.size(), "merged to " << mm.nVertices() << " vertices, there are " << distinct.size() << " distinct positions");
  check(mm, "merged: ");
  // reading as a mesh merges as well; needs faces with distinct vertices
  bool proper = true;
  for (auto& f : mm.polygons) proper = proper && f[0] != f[1] && f[1] != f[2] && f[2] != f[0];
  if (proper) {
    std::stringstream in2(out);
    std::unique_ptr<SurfaceMesh> sm;
    std::unique_ptr<VertexPositionGeometry> geo;
    if (g.coin()) {
      std::tie(sm, geo) = readSurfaceMesh(in2, "stl");
    } else {
      Scratch sc;
      spew(sc.path("x.stl"), out);
      std::tie(sm, geo) = readSurfaceMesh(sc.path("x.stl"));
    }
    REQ(g, sm->nVertices() == distinct.size() && sm->nFaces() == (size_t)nf, "readSurfaceMesh: " << sm->nVertices() << " vertices, " << sm->nFaces() << " faces");
    size_t i = 0;
    for (Face f : sm->faces()) {
      std::vector<Vector3> a, b;
      for (Vertex v : f.adjacentVertices()) a.push_back(geo->vertexPositions[v]);
      for (size_t v : mm.polygons[i]) b.push_back(mm.vertexCoordinates[v]);
      bool ok = false;
      for (int k = 0; k < 3; k++) ok = ok || (a.size() == 3 && a[0] == b[k] && a[1] == b[(k + 1) % 3] && a[2] == b[(k + 2) % 3]);
      REQ(g, ok, "readSurfaceMesh: triangle " << i);
      i++;
    }
  }
  // truncated
  size_t cut = ends[g.below(nf)];
  cut += g.below(ends.back() - cut > 4 ? 4 : 1);
  if (!ascii) {
    std::stringstream in3(out.substr(0, cut));
    REQ_THROWS(g, SimplePolygonMesh(in3, "stl"), "truncated binary file");
  }
}

// ---------------------------------------------------------------- corrupted files

static void corrupted(G& g) {
  int type = g.range(0, 3);
  std::string text;
  SPM s = genSPM(g, 6, 6, true, true, false);
  if (type == 0) {
    std::stringstream o;
    SimplePolygonMesh(s.polys, s.pos, s.uv).writeMesh(o, "obj");
    text = o.str();
  } else if (type == 1) {
    text = "OFF\n" + std::to_string(s.pos.size()) + " " + std::to_string(s.polys.size()) + " 0\n";
    for (Vector3 p : s.pos) text += fmt(p.x) + " " + fmt(p.y) + " " + fmt(p.z) + "\n";
    for (auto& f : s.polys) {
      text += std::to_string(f.size());
      for (size_t v : f) text += " " + std::to_string(v);
      text += "\n";
    }
  } else if (type == 2) {
    text = "solid x\n";
    for (auto& f : s.polys) {
      text += "facet normal 0 0 1\nouter loop\n";
      for (int j = 0; j < 3; j++) text += "vertex " + fmt(s.pos[f[j]].x) + " " + fmt(s.pos[f[j]].y) + " 0.5\n";
      text += "endloop\nendfacet\n";
    }
    text += "endsolid\n";
  } else {
    text = std::string(80, 'h');
    uint32_t c = s.polys.size();
    text.append((char*)&c, 4);
    for (auto& f : s.polys) {
      float v[12] = {0, 0, 1};
      for (int j = 0; j < 3; j++)
        for (int k = 0; k < 3; k++) v[3 + 3 * j + k] = (float)s.pos[f[j]][k];
      text.append((char*)v, 48);
      text.append(2, '\0');
    }
  }
  const char* types[] = {"obj", "off", "stl", "stl"};
  int edits = g.range(0, 6);
  static const std::string alphabet = "0123456789-+./ \n\t\r#\\eEvftnxo";
  for (int i = 0; i < edits && !text.empty(); i++) {
    size_t at = g.below(text.size());
    if (type == 3 && at >= 82 && at < 84) continue; // gigantic counts only waste time
    switch (g.weighted({4, 2, 2, 1, 1})) {
    case 0: text[at] = type == 3 ? (char)g.below(256) : alphabet[g.below(alphabet.size())]; break;
    case 1:
      if (type != 3) text.erase(at, g.range(1, 4));
      break;
    case 2:
      if (type != 3) text.insert(at, 1, alphabet[g.below(alphabet.size())]);
      break;
    case 3: text.resize(at); break;
    default: { // repeat a piece
      if (type == 3) break;
      size_t n = std::min<size_t>(text.size() - at, g.range(1, 12));
      text.insert(at, text.substr(at, n));
    }
    }
  }
  // numbers with many digits can announce sizes that exhaust the memory: not the point here
  if (type == 1) {
    int run = 0;
    for (char c : text) {
      run = isdigit((unsigned char)c) ? run + 1 : 0;
      if (run > 4 && text.find('.') == std::string::npos) g.discard();
    }
    std::stringstream t(text);
    std::string line;
    size_t ln = 0;
    while (std::getline(t, line)) {
      ln++;
      std::stringstream ls(line);
      std::string w;
      while (ls >> w)
        if (w.size() > 5 && w.find('.') == std::string::npos) g.discard();
        else if (!w.empty() && w[0] == '-') {
          if (ln < 3) g.discard(); // a negative count
        }
        else if (w.find('e') != std::string::npos && ln < 4) g.discard();
    }
  }
  g.note(types[type], " ", type == 3 ? std::string("binary") : text);
  if (edits) g.nontrivial();
  SimplePolygonMesh m;
  bool threw = false;
  try {
    std::stringstream in(text);
    m.readMeshFromFile(in, types[type]);
  } catch (const std::exception& e) {
    threw = true;
  }
  g.label(threw ? "rejected" : "read");
  if (edits == 0) REQ(g, !threw || s.polys.empty(), "an intact file was rejected");
  if (threw) return;
  // what was read is usable: cleaning it up leaves a valid mesh
  for (auto& u : m.paramCoordinates) (void)u;
  REQ(g, m.paramCoordinates.empty() || m.paramCoordinates.size() == m.polygons.size(), "coordinate lists and faces differ in number");
  m.stripInvalidFaces();
  for (auto& f : m.polygons) {
    REQ(g, f.size() >= 3, "a face of degree " << f.size() << " survived stripInvalidFaces");
    std::set<size_t> u(f.begin(), f.end());
    REQ(g, u.size() == f.size() && *u.rbegin() < m.nVertices(), "an invalid face survived stripInvalidFaces");
  }
  m.stripUnusedVertices();
  if (m.polygons.empty()) return;
  SurfaceMesh sm(m.polygons);
  checkStructure(g, sm, "built from the file: ");
}

// ---------------------------------------------------------------- SimplePolygonMesh operations

static void spmOps(G& g) {
  SPM s = genSPM(g, 10, 12, true, false, g.coin());
  // faces of small degree, unused and coincident vertices, out-of-range indices, duplicates
  bool bad = g.chance(.3);
  for (size_t i = 0; i < s.polys.size(); i++) {
    if (bad && g.chance(.2)) {
      s.polys[i].resize(g.range(0, 2));
      if (i < s.uv.size() && !s.uv[i].empty()) s.uv[i].resize(s.polys[i].size());
    }
    if (bad && g.chance(.2) && !s.polys[i].empty()) s.polys[i][g.below(s.polys[i].size())] = s.pos.size() + g.below(3);
  }
  if (g.chance(.5) && !s.polys.empty()) {
    int k = g.range(1, 4);
    for (int i = 0; i < k; i++) {
      size_t at = g.below(s.polys.size());
      auto f = s.polys[at];
      if (g.coin()) g.shuffle(f);
      s.polys.push_back(f);
      if (!s.uv.empty()) {
        s.uv.emplace_back();
        if (!s.uv[at].empty())
          for (size_t j = 0; j < f.size(); j++) s.uv.back().push_back(Vector2{g.jitter(1), 7});
      }
    }
  }
  if (g.chance(.5))
    for (Vector3& p : s.pos)
      if (g.chance(.3)) p = s.pos[g.below(s.pos.size())];
  if (g.chance(.2))
    for (Vector3& p : s.pos)
      for (int j = 0; j < 3; j++)
        if (p[j] == 0 && g.coin()) p[j] = -p[j];
  g.note(describe(s));
  int ops = g.range(1, 4);
  SimplePolygonMesh m(s.polys, s.pos, s.uv);
  SPM w = s;
  for (int k = 0; k < ops; k++) {
    bool inRange = true, deg3 = true;
    for (auto& f : w.polys) {
      deg3 = deg3 && f.size() >= 3;
      for (size_t v : f) inRange = inRange && v < w.pos.size();
    }
    auto keepIf = [&](const std::function<bool(const std::vector<size_t>&)>& keep) {
      SPM n;
      n.pos = w.pos;
      for (size_t i = 0; i < w.polys.size(); i++)
        if (keep(w.polys[i])) {
          n.polys.push_back(w.polys[i]);
          if (!w.uv.empty()) n.uv.push_back(w.uv[i]);
        }
      w = n;
    };
    auto distinct = [&](const std::vector<size_t>& f) { return std::set<size_t>(f.begin(), f.end()).size() == f.size(); };
    switch (g.weighted({3, 3, 2, 2, 3, 3, 1})) {
    case 0: {
      if (!inRange) break;
      g.note("merge");
      m.mergeIdenticalVertices();
      std::vector<Vector3> np;
      std::vector<size_t> to;
      for (Vector3 p : w.pos) {
        size_t j = 0;
        while (j < np.size() && !(np[j] == p)) j++;
        if (j == np.size()) np.push_back(p);
        to.push_back(j);
      }
      // any numbering of the merged vertices will do, so compare by position
      REQ(g, m.nVertices() == np.size(), "mergeIdenticalVertices leaves " << m.nVertices() << " vertices of " << np.size() << " distinct positions");
      REQ(g, m.nFaces() == w.polys.size(), "mergeIdenticalVertices changes the number of faces");
      for (size_t i = 0; i < w.polys.size(); i++) {
        REQ(g, m.polygons[i].size() == w.polys[i].size(), "mergeIdenticalVertices changes a degree");
        for (size_t j = 0; j < w.polys[i].size(); j++)
          REQ(g, m.vertexCoordinates.at(m.polygons[i][j]) == w.pos[w.polys[i][j]], "mergeIdenticalVertices moves a corner");
      }
      std::set<std::array<double, 3>> ds;
      for (Vector3 p : m.vertexCoordinates) ds.insert({p.x + 0., p.y + 0., p.z + 0.});
      REQ(g, ds.size() == m.nVertices(), "identical positions left");
      w.pos = m.vertexCoordinates;
      w.polys = m.polygons;
      g.label("merge");
      break;
    }
    case 1: {
      if (!inRange) {
        REQ_THROWS(g, SimplePolygonMesh(m).stripUnusedVertices(), "out-of-range index");
        break;
      }
      g.note("stripUnused");
      std::vector<size_t> map = m.stripUnusedVertices();
      std::vector<char> used(w.pos.size(), 0);
      for (auto& f : w.polys)
        for (size_t v : f) used[v] = 1;
      REQ(g, map.size() == w.pos.size(), "map size");
      size_t cnt = std::count(used.begin(), used.end(), 1);
      REQ(g, m.nVertices() == cnt, "stripUnusedVertices leaves " << m.nVertices() << " vertices, " << cnt << " are used");
      std::set<size_t> im;
      for (size_t i = 0; i < map.size(); i++) {
        if (!used[i]) {
          REQ(g, map[i] == INVALID_IND, "unused vertex " << i << " mapped to " << map[i]);
          continue;
        }
        REQ(g, map[i] < cnt && im.insert(map[i]).second && same(m.vertexCoordinates[map[i]], w.pos[i]), "vertex map at " << i);
      }
      for (auto& f : w.polys)
        for (size_t& v : f) v = map[v];
      w.pos = m.vertexCoordinates;
      break;
    }
    case 2:
      g.note("stripRepeated");
      m.stripFacesWithDuplicateVertices();
      keepIf(distinct);
      break;
    case 3:
      g.note("stripInvalid");
      m.stripInvalidFaces();
      keepIf([&](const std::vector<size_t>& f) {
        for (size_t v : f)
          if (v >= w.pos.size()) return false;
        return f.size() >= 3 && distinct(f);
      });
      g.label("stripInvalid");
      break;
    case 4: {
      g.note("stripDuplicate");
      m.stripDuplicateFaces();
      auto key = [](std::vector<size_t> f) {
        std::sort(f.begin(), f.end());
        return f;
      };
      std::map<std::vector<size_t>, std::vector<size_t>> byKey;
      for (size_t i = 0; i < w.polys.size(); i++) byKey[key(w.polys[i])].push_back(i);
      if (byKey.size() < w.polys.size()) g.label("duplicates");
      REQ(g, m.nFaces() == byKey.size(), "stripDuplicateFaces leaves " << m.nFaces() << " faces, there are " << byKey.size() << " vertex sets");
      REQ(g, w.uv.empty() || m.nFaces() == 0 || m.paramCoordinates.size() == m.nFaces(), "coordinate lists");
      std::set<std::vector<size_t>> seen;
      for (size_t i = 0; i < m.nFaces(); i++) {
        auto kk = key(m.polygons[i]);
        REQ(g, byKey.count(kk) && seen.insert(kk).second, "stripDuplicateFaces: wrong face " << i);
        bool ok = false;
        for (size_t j : byKey[kk]) {
          bool eq = w.polys[j] == m.polygons[i];
          if (eq && !w.uv.empty()) {
            eq = w.uv[j].size() == m.paramCoordinates[i].size();
            for (size_t c = 0; eq && c < w.uv[j].size(); c++) eq = same(w.uv[j][c], m.paramCoordinates[i][c]);
          }
          ok = ok || eq;
        }
        REQ(g, ok, "stripDuplicateFaces: face " << i << " with its coordinates was not in the mesh");
      }
      w.polys = m.polygons;
      w.uv = m.paramCoordinates;
      break;
    }
    case 5: {
      if (!deg3) {
        REQ_THROWS(g, SimplePolygonMesh(m).triangulate(), "a face of degree < 3");
        break;
      }
      g.note("triangulate");
      m.triangulate();
      g.label("triangulate");
      size_t at = 0;
      REQ(g, m.paramCoordinates.empty() == w.uv.empty() || m.nFaces() == 0, "triangulate loses the coordinates");
      for (size_t i = 0; i < w.polys.size(); i++) {
        size_t d = w.polys[i].size();
        // the triangles of this face: each directed boundary side once, every other side in both directions
        std::map<std::pair<size_t, size_t>, int> sides;
        for (size_t k2 = 0; k2 + 2 < d; k2++, at++) {
          REQ(g, at < m.nFaces() && m.polygons[at].size() == 3, "triangulate: too few triangles");
          auto& t = m.polygons[at];
          for (int j = 0; j < 3; j++) sides[{t[j], t[(j + 1) % 3]}]++;
          if (!w.uv.empty()) {
            auto& u = m.paramCoordinates.at(at);
            bool had = w.uv[i].size() == d;
            REQ(g, u.size() == (had ? 3u : 0u), "triangulate: " << u.size() << " coordinates");
            for (size_t j = 0; j < u.size(); j++) { // some corner of the polygon with this vertex has this coordinate
              bool ok = false;
              for (size_t c = 0; c < d; c++) ok = ok || (w.polys[i][c] == t[j] && same(w.uv[i][c], u[j]));
              REQ(g, ok, "triangulate: coordinates of another corner");
            }
          }
        }
        for (size_t j = 0; j < d; j++) sides[{w.polys[i][j], w.polys[i][(j + 1) % d]}]--;
        for (auto& x : sides) {
          auto r = std::make_pair(x.first.second, x.first.first);
          int back = sides.count(r) ? sides[r] : 0;
          REQ(g, x.first.first == x.first.second || x.second == back, "triangulate: the triangles do not fill face " << i);
        }
      }
      REQ(g, at == m.nFaces(), "triangulate: too many triangles");
      w.polys = m.polygons;
      w.uv = m.paramCoordinates;
      break;
    }
    default: { // union with some other meshes
      std::vector<SimplePolygonMesh> ms{m};
      std::vector<SPM> ws{w};
      int extra = g.range(0, 2);
      for (int i = 0; i < extra; i++) {
        SPM t = genSPM(g, 5, 4, true, false, false);
        ws.push_back(t);
        ms.push_back(SimplePolygonMesh(t.polys, t.pos, t.uv));
      }
      bool keep = true;
      for (auto& t : ws) keep = keep && !t.uv.empty();
      SPM u;
      for (auto& t : ws) {
        size_t off = u.pos.size();
        for (auto f : t.polys) {
          for (size_t& v : f) v += off;
          u.polys.push_back(f);
        }
        u.pos.insert(u.pos.end(), t.pos.begin(), t.pos.end());
        if (keep) u.uv.insert(u.uv.end(), t.uv.begin(), t.uv.end());
      }
      auto r = unionMeshes(ms);
      compareSPM(g, *r, u, "unionMeshes: ");
      g.label("union");
      break;
    }
    }
    if (w.uv.size() && w.polys.empty()) w.uv.clear();
    if (m.polygons.empty()) m.paramCoordinates.clear();
    compareSPM(g, m, w, "after operation " + std::to_string(k) + ": ");
  }
  if (s.polys.size() > 2) g.nontrivial();
}

// ---------------------------------------------------------------- orientation

static void orient(G& g) {
  bool outward = g.chance(.4);
  SPM w;
  Soup s;
  int kind = 0;
  if (outward) { // convex closed surfaces, several and far apart
    int k = g.range(1, 3);
    for (int i = 0; i < k; i++) {
      Soup one;
      switch (g.range(0, 2)) {
      case 0: one = tetra(); break;
      case 1: one = icosa(); break;
      default: one = bipyramid(g.range(3, 8));
      }
      // affine images stay convex
      Vector3 sc{g.real(.5, 2), g.real(.5, 2), g.real(.5, 2)};
      Vector3 c{0, 0, 0};
      for (Vector3& p : one.pos) {
        for (int j = 0; j < 3; j++) p[j] *= sc[j];
        c += p;
      }
      c = c / (double)one.pos.size();
      for (Vector3& p : one.pos) p -= c;
      // outward orientation as given by the centre
      for (auto& f : one.polys) {
        Vector3 n = cross(one.pos[f[1]] - one.pos[f[0]], one.pos[f[2]] - one.pos[f[0]]);
        if (dot(n, one.pos[f[0]]) < 0) std::reverse(f.begin(), f.end());
      }
      append(s, one, Vector3{10. * i, g.jitter(1), g.jitter(1)});
    }
  } else {
    kind = g.range(0, 2);
    GenOpts o;
    o.tri = g.coin();
    o.maxFaces = 30;
    o.multi = true;
    if (kind == 0)
      s = genManifold(g, o);
    else if (kind == 1)
      s = genGeneral(g, 14, g.coin());
    else { // Möbius band
      int n = g.range(5, 9);
      for (int i = 0; i < n; i++)
        for (int j = 0; j < 2; j++) s.pos.push_back(Vector3{(double)i, (double)j, 0});
      for (int i = 0; i < n; i++) {
        size_t a = 2 * i, b = 2 * i + 1, c = i + 1 < n ? 2 * (i + 1) : 1, d = i + 1 < n ? 2 * (i + 1) + 1 : 0;
        s.polys.push_back({a, c, d, b});
      }
    }
  }
  w.polys = s.polys;
  w.pos = s.pos;
  Polys good = s.polys;
  bool uv = g.coin();
  std::vector<size_t> order = g.perm(w.polys.size());
  Polys sh;
  for (size_t i : order) sh.push_back(good[i]);
  good = sh;
  for (auto& f : sh)
    if (g.coin()) std::reverse(f.begin(), f.end());
  w.polys = sh;
  double tag = 0;
  if (uv)
    for (auto& f : w.polys) {
      w.uv.emplace_back();
      for (size_t v : f) w.uv.back().push_back(Vector2{(double)v, tag});
      tag++;
    }
  g.note(outward ? "outward " : "", "kind ", kind, " ", describe(w));
  g.label(outward ? "outward" : kind == 0 ? "manifold" : kind == 1 ? "general" : "Möbius");
  if (w.polys.size() > 3) g.nontrivial();
  SimplePolygonMesh m(w.polys, w.pos, w.uv);
  m.consistentlyOrientFaces(outward);
  REQ(g, m.nFaces() == w.polys.size() && m.nVertices() == w.pos.size(), "counts changed");
  for (size_t i = 0; i < w.pos.size(); i++) REQ(g, same(m.vertexCoordinates[i], w.pos[i]), "vertex moved");
  std::vector<int> flip(m.nFaces());
  for (size_t i = 0; i < m.nFaces(); i++) {
    auto r = w.polys[i];
    std::reverse(r.begin(), r.end());
    bool kept = sameCycle(m.polygons[i], w.polys[i]), rev = sameCycle(m.polygons[i], r);
    REQ(g, kept || rev, "face " << i << " is neither kept nor reversed");
    flip[i] = kept ? 0 : 1;
    if (uv) {
      REQ(g, m.paramCoordinates.at(i).size() == r.size(), "coordinates");
      for (size_t j = 0; j < r.size(); j++)
        REQ(g, m.paramCoordinates[i][j].x == (double)m.polygons[i][j] && m.paramCoordinates[i][j].y == (double)i, "coordinates are not reversed together with face " << i);
    }
  }
  // sides with exactly two faces join a patch
  struct Inc {
    size_t f;
    bool fwd;
  };
  std::map<VPair, std::vector<Inc>> inc;
  for (size_t i = 0; i < w.polys.size(); i++) {
    auto& f = w.polys[i];
    for (size_t j = 0; j < f.size(); j++) {
      size_t a = f[j], b = f[(j + 1) % f.size()];
      inc[mk(a, b)].push_back({i, a < b});
    }
  }
  // 2-colouring by breadth first search decides whether a patch is orientable
  std::vector<std::vector<std::pair<size_t, int>>> adj(w.polys.size());
  for (auto& e : inc)
    if (e.second.size() == 2) {
      int rel = e.second[0].fwd == e.second[1].fwd ? 1 : 0;
      adj[e.second[0].f].push_back({e.second[1].f, rel});
      adj[e.second[1].f].push_back({e.second[0].f, rel});
    }
  std::vector<int> col(w.polys.size(), -1);
  for (size_t i = 0; i < w.polys.size(); i++) {
    if (col[i] >= 0) continue;
    std::vector<size_t> st{i}, all;
    col[i] = 0;
    bool orientable = true;
    while (!st.empty()) {
      size_t f = st.back();
      st.pop_back();
      all.push_back(f);
      for (auto& a : adj[f]) {
        int c = col[f] ^ a.second;
        if (col[a.first] < 0) {
          col[a.first] = c;
          st.push_back(a.first);
        } else if (col[a.first] != c)
          orientable = false;
      }
    }
    if (!orientable) {
      g.label("non-orientable patch");
      continue;
    }
    int rel = flip[all[0]] ^ col[all[0]];
    for (size_t f : all) REQ(g, (flip[f] ^ col[f]) == rel, "faces " << all[0] << " and " << f << " of one orientable patch are oriented differently");
  }
  if (outward)
    for (size_t i = 0; i < m.nFaces(); i++) REQ(g, sameCycle(m.polygons[i], good[i]), "face " << i << " of a convex surface points inward");
}

// ---------------------------------------------------------------- surface mesh files

// an OBJ file as its lines say
struct ObjFile {
  std::vector<Vector3> v, vn;
  std::vector<Vector2> vt;
  std::vector<std::vector<std::array<long, 3>>> f;
};
static ObjFile parseObj(const std::string& t) {
  ObjFile o;
  std::stringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    std::stringstream l(line);
    std::string k;
    l >> k;
    auto num = [&]() {
      std::string w;
      l >> w;
      return strtod(w.c_str(), nullptr);
    };
    if (k == "v" || k == "vn") {
      Vector3 p;
      p.x = num(), p.y = num(), p.z = num();
      (k == "v" ? o.v : o.vn).push_back(p);
    } else if (k == "vt") {
      Vector2 p;
      p.x = num(), p.y = num();
      o.vt.push_back(p);
    } else if (k == "f") {
      o.f.emplace_back();
      std::string w;
      while (l >> w) {
        std::array<long, 3> a{0, 0, 0};
        std::stringstream ws(w);
        std::string part;
        for (int i = 0; i < 3 && std::getline(ws, part, '/'); i++) a[i] = atol(part.c_str());
        o.f.back().push_back(a);
      }
    }
  }
  return o;
}

static void meshFiles(G& g) {
  bool man = g.chance(.7);
  GenOpts o;
  o.tri = g.coin();
  o.maxFaces = 24;
  o.multi = g.coin();
  std::unique_ptr<SurfaceMesh> own;
  std::unique_ptr<ManifoldSurfaceMesh> mown;
  SurfaceMesh* m;
  if (man) {
    mown.reset(new ManifoldSurfaceMesh(genManifold(g, o).polys));
    m = mown.get();
  } else {
    own.reset(new SurfaceMesh(genGeneral(g, 12, o.tri).polys));
    m = own.get();
  }
  int k = g.range(0, 6);
  for (int i = 0; i < k; i++) {
    if (man)
      mutateManifold(g, *mown, "mutation: ", false);
    else
      mutateGeneral(g, *m, "mutation: ");
  }
  if (m->nFaces() == 0) g.discard();
  // only meshes a list of vertex cycles can describe
  Polys want = m->getFaceVertexList();
  std::set<size_t> usedV;
  std::set<std::pair<size_t, size_t>> dirs;
  bool ok = true;
  for (auto& f : want) {
    if (f.size() < 3 || std::set<size_t>(f.begin(), f.end()).size() != f.size()) ok = false;
    for (size_t j = 0; j < f.size(); j++) {
      usedV.insert(f[j]);
      if (man && !dirs.insert({f[j], f[(j + 1) % f.size()]}).second) ok = false;
    }
  }
  if (!ok || usedV.size() != m->nVertices()) g.discard();
  if (!m->isCompressed()) g.label("gaps");
  if (want.size() > 2) g.nontrivial();
  g.note(man ? "manifold " : "general ", str(want));
  VertexPositionGeometry geo(*m);
  std::vector<Vector3> pos;
  for (Vertex v : m->vertices()) {
    geo.vertexPositions[v] = Vector3{anyReal(g), anyReal(g), anyReal(g)};
    pos.push_back(geo.vertexPositions[v]);
  }
  geo.refreshQuantities();
  CornerData<Vector2> uv(*m);
  for (Corner c : m->corners()) uv[c] = Vector2{anyReal(g), anyReal(g)};
  bool withUV = g.coin();
  Scratch sc;
  std::string file = sc.path("m.obj"), text;
  int how = g.range(0, 1);
  if (how == 0) {
    if (withUV)
      writeSurfaceMesh(*m, geo, uv, file);
    else
      writeSurfaceMesh(*m, geo, file, g.coin() ? "obj" : "");
    text = slurp(file);
  } else {
    std::stringstream ss;
    if (withUV)
      writeSurfaceMesh(*m, geo, uv, ss, "obj");
    else
      writeSurfaceMesh(*m, geo, ss, "obj");
    text = ss.str();
    spew(file, text);
  }
  ObjFile of = parseObj(text);
  auto checkFile = [&](const ObjFile& of, bool t, bool n, CornerData<Vector3>* nrm, const std::string& w) {
    REQ(g, of.v.size() == pos.size() && of.f.size() == want.size(), w << "counts in the file");
    for (size_t i = 0; i < pos.size(); i++) REQ(g, same(of.v[i], pos[i]), w << "position in the file");
    size_t i = 0;
    for (Face f : m->faces()) {
      size_t j = 0;
      REQ(g, of.f[i].size() == f.degree(), w << "degree in the file");
      // the cycle may start anywhere
      std::vector<Corner> cs;
      for (Corner c : f.adjacentCorners()) cs.push_back(c);
      (void)j;
      bool any = false;
      for (size_t s = 0; s < cs.size() && !any; s++) {
        bool eq = true;
        for (size_t q = 0; q < cs.size() && eq; q++) {
          auto& a = of.f[i][q];
          Corner c = cs[(q + s) % cs.size()];
          eq = a[0] >= 1 && a[0] <= (long)of.v.size() && (size_t)a[0] - 1 == want[i][(q + s) % cs.size()];
          if (t) eq = eq && a[1] >= 1 && a[1] <= (long)of.vt.size() && same(of.vt[a[1] - 1], uv[c]);
          if (!t) eq = eq && a[1] == 0;
          if (n) eq = eq && a[2] >= 1 && a[2] <= (long)of.vn.size() && same(of.vn[a[2] - 1], (*nrm)[c]);
          if (!n) eq = eq && a[2] == 0;
        }
        any = eq;
      }
      REQ(g, any, w << "face " << i << " in the file");
      i++;
    }
  };
  checkFile(of, withUV, false, nullptr, "writeSurfaceMesh: ");
  // read back
  auto checkMesh = [&](SurfaceMesh& r, VertexPositionGeometry& rg, const std::string& w) {
    REQ(g, r.nVertices() == pos.size() && r.getFaceVertexList() == want, w << "faces are " << str(r.getFaceVertexList()));
    size_t i = 0;
    for (Vertex v : r.vertices()) REQ(g, same(rg.vertexPositions[v], pos[i++]), w << "position of " << v);
    checkStructure(g, r, w);
  };
  auto checkUV = [&](SurfaceMesh& r, CornerData<Vector2>& ru, const std::string& w) {
    VertexData<size_t> mi = m->getVertexIndices(), ri = r.getVertexIndices();
    std::vector<Face> fa, fb;
    for (Face f : m->faces()) fa.push_back(f);
    for (Face f : r.faces()) fb.push_back(f);
    for (size_t i = 0; i < fa.size(); i++)
      for (Corner a : fa[i].adjacentCorners())
        for (Corner b : fb[i].adjacentCorners())
          if (mi[a.vertex()] == ri[b.vertex()]) REQ(g, same(uv[a], ru[b]), w << "coordinate at a corner of face " << i << " is " << ru[b] << ", expected " << uv[a]);
  };
  {
    std::unique_ptr<SurfaceMesh> r;
    std::unique_ptr<VertexPositionGeometry> rg;
    if (g.coin())
      std::tie(r, rg) = readSurfaceMesh(file);
    else {
      std::stringstream in(text);
      std::tie(r, rg) = readSurfaceMesh(in, "obj");
    }
    checkMesh(*r, *rg, "readSurfaceMesh: ");
    std::vector<std::vector<Vector2>> none;
    if (withUV) {
      std::unique_ptr<CornerData<Vector2>> ru;
      std::tie(r, rg, ru) = readParameterizedSurfaceMesh(file);
      checkMesh(*r, *rg, "readParameterizedSurfaceMesh: ");
      REQ(g, ru.get() != nullptr, "no coordinates");
      checkUV(*r, *ru, "readParameterizedSurfaceMesh: ");
    }
  }
  RefMesh ref(want, pos.size());
  bool refMan = ref.manifoldOriented();
  if (refMan) {
    std::unique_ptr<ManifoldSurfaceMesh> r;
    std::unique_ptr<VertexPositionGeometry> rg;
    switch (g.range(0, 2)) {
    case 0: std::tie(r, rg) = readManifoldSurfaceMesh(file); break;
    case 1: std::tie(r, rg) = loadMesh(file, "obj"); break;
    default: {
      std::stringstream in(text);
      std::tie(r, rg) = readManifoldSurfaceMesh(in, "obj");
    }
    }
    checkMesh(*r, *rg, "readManifoldSurfaceMesh: ");
    if (withUV) {
      std::unique_ptr<CornerData<Vector2>> ru;
      std::tie(r, rg, ru) = readParameterizedManifoldSurfaceMesh(file);
      checkMesh(*r, *rg, "readParameterizedManifoldSurfaceMesh: ");
      REQ(g, ru.get() != nullptr, "no coordinates");
      checkUV(*r, *ru, "readParameterizedManifoldSurfaceMesh: ");
    }
  } else {
    g.label("non-manifold");
    REQ_THROWS(g, readManifoldSurfaceMesh(file), "a non-manifold mesh");
  }
  // the older writer
  std::string old = sc.path("w.obj");
  CornerData<Vector3> nrm(*m);
  for (Corner c : m->corners()) nrm[c] = Vector3{anyReal(g), anyReal(g), anyReal(g)};
  int which = g.range(0, 3);
  bool done = which == 0   ? WavefrontOBJ::write(old, geo)
              : which == 1 ? WavefrontOBJ::write(old, geo, uv)
              : which == 2 ? WavefrontOBJ::write(old, geo, nrm)
                           : WavefrontOBJ::write(old, geo, uv, nrm);
  REQ(g, done, "WavefrontOBJ::write");
  checkFile(parseObj(slurp(old)), which & 1, which >= 2, &nrm, "WavefrontOBJ: ");
  REQ(g, !WavefrontOBJ::write("/nonexistent-dir/x.obj", geo), "writing to a missing folder");
  // corner data from vertex data
  VertexData<double> a(*m), b(*m);
  for (Vertex v : m->vertices()) a[v] = g.jitter(1), b[v] = g.jitter(1);
  CornerData<Vector2> p1 = packToParam(*m, a), p2 = packToParam(*m, a, b);
  for (Corner c : m->corners()) {
    REQ(g, p1[c].x == a[c.vertex()] && p1[c].y == 0, "packToParam of one value");
    REQ(g, p2[c].x == a[c.vertex()] && p2[c].y == b[c.vertex()], "packToParam of two values");
  }
  // orders polyscope uses: elements as met going around the faces in order
  auto perms = polyscopePermutations(*m);
  std::array<std::vector<size_t>, 5> wantP;
  for (Vertex v : m->vertices()) wantP[0].push_back(v.getIndex());
  std::set<size_t> seenE;
  for (Face f : m->faces()) {
    wantP[1].push_back(f.getIndex());
    for (Halfedge h : f.adjacentHalfedges()) {
      if (seenE.insert(h.edge().getIndex()).second) wantP[2].push_back(h.edge().getIndex());
      wantP[3].push_back(h.getIndex());
      wantP[4].push_back(h.corner().getIndex());
    }
  }
  size_t caps[5] = {0, 0, 0, 0, 0};
  for (int i = 0; i < 5; i++) {
    REQ(g, perms[i].first == wantP[i], "polyscopePermutations[" << i << "]");
    for (size_t x : perms[i].first) REQ(g, x < perms[i].second, "polyscopePermutations[" << i << "] has an index beyond its size");
    (void)caps;
  }
  EdgeData<char> eo = polyscopeEdgeOrientations(*m);
  VertexData<size_t> vi = m->getVertexIndices();
  for (Edge e : m->edges()) REQ(g, (bool)eo[e] == (vi[e.firstVertex()] < vi[e.secondVertex()]), "polyscopeEdgeOrientations");
}

// ---------------------------------------------------------------- rich data

template <typename E, typename T, typename F>
static void fillData(MeshData<E, T>& d, SurfaceMesh& m, F f) {
  for (E e : iterateElements<E>(&m)) d[e] = f();
}
template <typename E, typename T>
static std::vector<T> dense(SurfaceMesh& m, const MeshData<E, T>& d) {
  std::vector<T> r;
  for (E e : iterateElements<E>(&m)) r.push_back(d[e]);
  return r;
}
template <typename T>
static bool sameT(T a, T b) {
  return a == b;
}
static bool sameT(double a, double b) { return same(a, b); }

struct AnyProp {
  std::function<void(RichSurfaceMeshData&)> add;
  std::function<void(G&, SurfaceMesh&, RichSurfaceMeshData&, const std::string&)> check;
};
template <typename T>
static T genVal(G& g);
template <>
double genVal<double>(G& g) { return anyReal(g); }
template <>
float genVal<float>(G& g) { return (float)g.jitter(3); }
template <>
int genVal<int>(G& g) { return g.range(-100000, 100000); }
template <>
unsigned char genVal<unsigned char>(G& g) { return (unsigned char)g.below(256); }
template <>
char genVal<char>(G& g) { return (char)g.range(-100, 100); }
template <>
uint32_t genVal<uint32_t>(G& g) { return (uint32_t)g.draw(0xffffffffu); }

template <typename E, typename T>
static AnyProp makeProp(G& g, SurfaceMesh& m, const std::string& name) {
  auto d = std::make_shared<MeshData<E, T>>(m);
  fillData(*d, m, [&]() { return genVal<T>(g); });
  auto vals = std::make_shared<std::vector<T>>(dense(m, *d));
  AnyProp p;
  p.add = [d, name](RichSurfaceMeshData& r) { r.addElementProperty(name, *d); };
  p.check = [vals, name](G& g, SurfaceMesh& mm, RichSurfaceMeshData& r, const std::string& w) {
    MeshData<E, T> got = r.getElementProperty<E, T>(name);
    std::vector<T> gv = dense(mm, got);
    REQ(g, gv.size() == vals->size(), w << name << " has " << gv.size() << " entries, expected " << vals->size());
    for (size_t i = 0; i < gv.size(); i++) REQ(g, sameT(gv[i], (*vals)[i]), w << name << " entry " << i << " is " << +gv[i] << ", expected " << +(*vals)[i]);
  };
  return p;
}
template <typename E>
static AnyProp makeTyped(G& g, SurfaceMesh& m, const std::string& name) {
  switch (g.weighted({3, 1, 2, 1, 1, 1})) {
  case 0: return makeProp<E, double>(g, m, name + "_d");
  case 1: return makeProp<E, float>(g, m, name + "_f");
  case 2: return makeProp<E, int>(g, m, name + "_i");
  case 3: return makeProp<E, unsigned char>(g, m, name + "_uc");
  case 4: return makeProp<E, char>(g, m, name + "_c");
  default: return makeProp<E, uint32_t>(g, m, name + "_u");
  }
}

// connectivity in dense order: what a reader must reproduce exactly
struct Dense {
  size_t nv, nh, ne, nf, nbl;
  std::vector<size_t> next, vert, face, edge, twin, vhe, fhe, ehe;
};
static Dense denseOf(SurfaceMesh& m) {
  Dense d;
  d.nv = m.nVertices(), d.nh = m.nHalfedges(), d.ne = m.nEdges(), d.nf = m.nFaces(), d.nbl = m.nBoundaryLoops();
  VertexData<size_t> vi = m.getVertexIndices();
  HalfedgeData<size_t> hi = m.getHalfedgeIndices();
  EdgeData<size_t> ei = m.getEdgeIndices();
  FaceData<size_t> fi = m.getFaceIndices();
  BoundaryLoopData<size_t> bi = m.getBoundaryLoopIndices();
  for (Halfedge h : m.halfedges()) {
    d.next.push_back(hi[h.next()]);
    d.vert.push_back(vi[h.vertex()]);
    d.edge.push_back(ei[h.edge()]);
    d.twin.push_back(hi[h.sibling()]);
    d.face.push_back(h.isInterior() ? fi[h.face()] : 1000000 + (m.nBoundaryLoops() && h.face().isBoundaryLoop() ? bi[h.face().asBoundaryLoop()] : 0));
  }
  for (Vertex v : m.vertices()) d.vhe.push_back(hi[v.halfedge()]);
  for (Face f : m.faces()) d.fhe.push_back(hi[f.halfedge()]);
  for (Edge e : m.edges()) d.ehe.push_back(hi[e.halfedge()]);
  return d;
}
static void compareDense(G& g, const Dense& a, const Dense& b, const std::string& w) {
  REQ(g, a.nv == b.nv && a.nh == b.nh && a.ne == b.ne && a.nf == b.nf && a.nbl == b.nbl, w << "element counts differ");
  REQ(g, a.next == b.next, w << "next differs");
  REQ(g, a.vert == b.vert, w << "halfedge vertices differ");
  REQ(g, a.edge == b.edge, w << "halfedge edges differ");
  REQ(g, a.twin == b.twin, w << "siblings differ");
  REQ(g, a.face == b.face, w << "halfedge faces differ");
  REQ(g, a.vhe == b.vhe, w << "vertex halfedges differ");
  REQ(g, a.fhe == b.fhe, w << "face halfedges differ");
  REQ(g, a.ehe == b.ehe, w << "edge halfedges differ");
}

static void rich(G& g) {
  bool man = g.chance(.7);
  GenOpts o;
  o.tri = g.coin();
  o.maxFaces = 24;
  o.multi = g.coin();
  std::unique_ptr<SurfaceMesh> own;
  std::unique_ptr<ManifoldSurfaceMesh> mown;
  SurfaceMesh* m;
  if (man) {
    mown.reset(new ManifoldSurfaceMesh(genManifold(g, o).polys));
    m = mown.get();
  } else {
    own.reset(new SurfaceMesh(genGeneral(g, 12, o.tri).polys));
    m = own.get();
  }
  int k = g.range(0, 8);
  for (int i = 0; i < k; i++) {
    if (man)
      mutateManifold(g, *mown, "mutation: ", g.coin());
    else
      mutateGeneral(g, *m, "mutation: ");
  }
  if (m->nFaces() == 0) g.discard();
  if (g.chance(.15)) m->compress();
  if (!m->isCompressed()) g.label("gaps");
  if (man && m->nBoundaryLoops()) g.label("boundary");
  if (!man) g.label("general");
  for (Face f : m->faces())
    if (f.degree() > 255) g.discard();
  if (m->nFaces() > 2) g.nontrivial();
  g.note(man ? "manifold " : "general ", str(m->getFaceVertexList()), m->isCompressed() ? "" : " gaps");
  Dense dm = denseOf(*m);

  std::vector<AnyProp> props;
  int np = g.range(0, 5);
  for (int i = 0; i < np; i++) {
    std::string n = "p" + std::to_string(i);
    switch (g.range(0, man ? 5 : 4)) {
    case 0: props.push_back(makeTyped<Vertex>(g, *m, n)); break;
    case 1: props.push_back(makeTyped<Halfedge>(g, *m, n)); break;
    case 2: props.push_back(makeTyped<Corner>(g, *m, n)); break;
    case 3: props.push_back(makeTyped<Edge>(g, *m, n)); break;
    case 4: props.push_back(makeTyped<Face>(g, *m, n)); break;
    default: props.push_back(makeTyped<BoundaryLoop>(g, *m, n));
    }
  }
  bool conn = g.chance(.85), geom = g.coin(), intr = g.coin();
  int colors = g.range(0, 2);
  VertexPositionGeometry vpg(*m);
  for (Vertex v : m->vertices()) vpg.vertexPositions[v] = Vector3{anyReal(g), anyReal(g), anyReal(g)};
  vpg.refreshQuantities();
  EdgeData<double> el(*m);
  for (Edge e : m->edges()) el[e] = g.real(.5, 1.5);
  EdgeLengthGeometry elg(*m, el);
  VertexData<double> col[3];
  VertexData<unsigned char> ucol[3];
  RichSurfaceMeshData out(*m);
  std::vector<int> steps;
  for (size_t i = 0; i < props.size(); i++) steps.push_back((int)i);
  if (conn) steps.push_back(100);
  if (geom) steps.push_back(101);
  if (intr) steps.push_back(102);
  if (colors) steps.push_back(103);
  g.shuffle(steps);
  for (int s : steps) {
    if (s < 100) props[s].add(out);
    if (s == 100) out.addMeshConnectivity();
    if (s == 101) out.addGeometry(vpg);
    if (s == 102) out.addIntrinsicGeometry(elg);
    if (s == 103)
      for (int c = 0; c < 3; c++) {
        const char* n[] = {"red", "green", "blue"};
        col[c] = VertexData<double>(*m);
        ucol[c] = VertexData<unsigned char>(*m);
        for (Vertex v : m->vertices()) {
          ucol[c][v] = (unsigned char)g.below(256);
          col[c][v] = colors == 1 ? ucol[c][v] / 255. : g.unit();
        }
        if (colors == 1)
          out.addVertexProperty(n[c], ucol[c]);
        else
          out.addVertexProperty(n[c], col[c]);
      }
  }
  out.outputFormat = g.coin() ? happly::DataFormat::Binary : happly::DataFormat::ASCII;
  g.label(out.outputFormat == happly::DataFormat::ASCII ? "ascii" : "binary");
  bool toFile = g.chance(.3);
  Scratch sc;
  std::string file = sc.path("r.ply"), bytes;
  if (toFile) {
    out.write(file);
    bytes = slurp(file);
  } else {
    std::stringstream ss;
    out.write(ss);
    bytes = ss.str();
  }
  compareDense(g, denseOf(*m), dm, "after writing: ");

  auto checkAll = [&](SurfaceMesh& r, RichSurfaceMeshData& d, const std::string& w) {
    for (auto& p : props) p.check(g, r, d, w);
    std::vector<Vertex> va, vb;
    for (Vertex v : m->vertices()) va.push_back(v);
    for (Vertex v : r.vertices()) vb.push_back(v);
    REQ(g, va.size() == vb.size(), w << "vertex count");
    if (geom) {
      auto gg = d.getGeometry();
      for (size_t i = 0; i < va.size(); i++) REQ(g, same(gg->vertexPositions[vb[i]], vpg.vertexPositions[va[i]]), w << "position of vertex " << i);
    }
    if (intr) {
      auto gg = d.getIntrinsicGeometry();
      std::vector<double> a = dense(*m, el), b = dense(r, gg->edgeLengths);
      REQ(g, a == b, w << "edge lengths differ");
    }
    if (colors) {
      VertexData<Vector3> cc = d.getVertexColors();
      for (size_t i = 0; i < va.size(); i++)
        for (int c = 0; c < 3; c++) REQ_NEAR(g, cc[vb[i]][c], col[c][va[i]], colors == 1 ? 1e-14 : 0, w << "colour of vertex " << i);
    } else
      REQ_THROWS(g, d.getVertexColors(), w << "no colours in the file");
    if (!geom) REQ_THROWS(g, d.getGeometry(), w << "no positions in the file");
    if (!intr) REQ_THROWS(g, d.getIntrinsicGeometry(), w << "no edge lengths in the file");
    REQ_THROWS(g, (d.getElementProperty<Vertex, double>("missing")), w << "missing property");
  };
  { // onto the mesh itself
    std::stringstream ss(bytes);
    std::unique_ptr<RichSurfaceMeshData> d;
    if (toFile)
      d.reset(new RichSurfaceMeshData(*m, file));
    else
      d.reset(new RichSurfaceMeshData(*m, ss));
    checkAll(*m, *d, "read onto the same mesh: ");
  }
  if (conn) {
    std::stringstream ss(bytes);
    std::unique_ptr<SurfaceMesh> r;
    std::unique_ptr<RichSurfaceMeshData> d;
    if (toFile)
      std::tie(r, d) = RichSurfaceMeshData::readMeshAndData(file);
    else
      std::tie(r, d) = RichSurfaceMeshData::readMeshAndData(ss);
    checkStructure(g, *r, "readMeshAndData: ");
    REQ(g, r->usesImplicitTwin() == m->usesImplicitTwin(), "the kind of mesh changed");
    compareDense(g, denseOf(*r), dm, "readMeshAndData: ");
    checkAll(*r, *d, "readMeshAndData: ");
    // the mesh is alive: it can be edited and compressed
    if (man) {
      ManifoldSurfaceMesh* rm = dynamic_cast<ManifoldSurfaceMesh*>(r.get());
      REQ(g, rm != nullptr, "a manifold mesh came back as a general one");
      int e = g.range(0, 3);
      for (int i = 0; i < e; i++) mutateManifold(g, *rm, "editing the mesh read: ", true);
      rm->compress();
      checkStructure(g, *rm, "editing the mesh read: ");
    } else {
      int e = g.range(0, 3);
      for (int i = 0; i < e; i++) mutateGeneral(g, *r, "editing the mesh read: ");
      r->compress();
      checkStructure(g, *r, "editing the mesh read: ");
    }
    std::stringstream s2(bytes);
    if (man) {
      std::unique_ptr<ManifoldSurfaceMesh> rm;
      if (toFile)
        std::tie(rm, d) = RichSurfaceMeshData::readManifoldMeshAndData(file);
      else
        std::tie(rm, d) = RichSurfaceMeshData::readManifoldMeshAndData(s2);
      compareDense(g, denseOf(*rm), dm, "readManifoldMeshAndData: ");
      checkAll(*rm, *d, "readManifoldMeshAndData: ");
    } else {
      REQ_THROWS(g, RichSurfaceMeshData::readManifoldMeshAndData(s2), "a general mesh read as a manifold one");
    }
    // as an ordinary mesh file
    if (geom && man) {
      std::stringstream s3(bytes);
      SimplePolygonMesh sp(s3, "ply");
      REQ(g, sp.polygons == m->getFaceVertexList() && sp.nVertices() == m->nVertices(), "the file as an ordinary ply file");
      size_t i = 0;
      for (Vertex v : m->vertices()) REQ(g, same(sp.vertexCoordinates[i++], vpg.vertexPositions[v]), "the file as an ordinary ply file: positions");
    }
  } else {
    std::stringstream ss(bytes);
    REQ_THROWS(g, RichSurfaceMeshData::readMeshAndData(ss), "no connectivity in the file");
  }
  // a mesh of another size
  if (geom) {
    ManifoldSurfaceMesh other(ngon(3 + (int)m->nVertices()).polys);
    std::stringstream ss(bytes);
    RichSurfaceMeshData d(other, ss);
    REQ_THROWS(g, d.getGeometry(), "a mesh with another number of vertices");
  }
}

int main(int argc, char** argv) {
  std::vector<pbt::Spec> specs;
  specs.push_back({"C22",
                   "polygon lists with extreme floating point values, per-corner coordinates (also on some faces only), files in many spellings (relative indices, continuation lines, CRLF, comments, mixed corner "
                   "forms), ASCII and binary STL, corrupted files, histories of clean-up operations against reference models, meshes with index gaps; non-trivial: more than 1-3 faces",
                   {{"obj", objRoundTrip, 4000, 60000},
                    {"dialect", objDialect, 6000, 100000},
                    {"off", offDialect, 3000, 40000},
                    {"stl", stl, 3000, 40000},
                    {"corrupted", corrupted, 6000, 200000},
                    {"operations", spmOps, 8000, 150000},
                    {"orient", orient, 3000, 40000},
                    {"meshes", meshFiles, 3000, 40000}},
                   {"PLY reading goes through a stand-in for the happly library, whose sources are not in this sandbox"}});
  specs.push_back({"C23",
                   "meshes (manifold with boundary, several components, general) after histories of edits that leave index gaps, random properties of six types on all element kinds in random order, ASCII and "
                   "binary, streams and files; the mesh read must agree in dense order and all data exactly; non-trivial: more than 2 faces",
                   {{"roundtrip", rich, 6000, 80000}},
                   {"the file format itself goes through a stand-in for the happly library"}});
  return pbt::run(argc, argv, specs);
}
