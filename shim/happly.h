// Stand-in for the happly PLY library (https://github.com/nmwsharp/happly), whose submodule is
// empty in this sandbox.  It implements the part of the interface geometry-central uses, with
// happly's documented behaviour (typed columns, promotion to larger types on read, exceptions on
// missing elements/properties/short files).  It is a trusted part of the harness, not under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace happly {

enum class DataFormat { ASCII, Binary, BinaryBigEndian };

enum class Ty { i8, u8, i16, u16, i32, u32, f32, f64 };

template <typename T> struct TyOf;
template <> struct TyOf<char> { static constexpr Ty v = Ty::i8; };
template <> struct TyOf<int8_t> { static constexpr Ty v = Ty::i8; };
template <> struct TyOf<uint8_t> { static constexpr Ty v = Ty::u8; };
template <> struct TyOf<int16_t> { static constexpr Ty v = Ty::i16; };
template <> struct TyOf<uint16_t> { static constexpr Ty v = Ty::u16; };
template <> struct TyOf<int32_t> { static constexpr Ty v = Ty::i32; };
template <> struct TyOf<uint32_t> { static constexpr Ty v = Ty::u32; };
template <> struct TyOf<float> { static constexpr Ty v = Ty::f32; };
template <> struct TyOf<double> { static constexpr Ty v = Ty::f64; };

inline size_t tySize(Ty t) {
  switch (t) {
  case Ty::i8: case Ty::u8: return 1;
  case Ty::i16: case Ty::u16: return 2;
  case Ty::i32: case Ty::u32: case Ty::f32: return 4;
  default: return 8;
  }
}
inline const char* tyName(Ty t) {
  static const char* n[] = {"char", "uchar", "short", "ushort", "int", "uint", "float", "double"};
  return n[(int)t];
}
inline Ty tyParse(const std::string& s) {
  static const char* n[][3] = {{"char", "int8", "i8"}, {"uchar", "uint8", "u8"}, {"short", "int16", ""}, {"ushort", "uint16", ""},
                               {"int", "int32", ""}, {"uint", "uint32", ""}, {"float", "float32", ""}, {"double", "float64", ""}};
  for (int i = 0; i < 8; i++)
    for (int j = 0; j < 3; j++)
      if (s == n[i][j]) return (Ty)i;
  throw std::runtime_error("PLY parser: unrecognized property type " + s);
}
template <typename T> T getRaw(const char* p) {
  T t;
  memcpy(&t, p, sizeof t);
  return t;
}
template <typename T> T tyGet(Ty t, const char* p) {
  switch (t) {
  case Ty::i8: return (T)getRaw<int8_t>(p);
  case Ty::u8: return (T)getRaw<uint8_t>(p);
  case Ty::i16: return (T)getRaw<int16_t>(p);
  case Ty::u16: return (T)getRaw<uint16_t>(p);
  case Ty::i32: return (T)getRaw<int32_t>(p);
  case Ty::u32: return (T)getRaw<uint32_t>(p);
  case Ty::f32: return (T)getRaw<float>(p);
  default: return (T)getRaw<double>(p);
  }
}
inline bool tyPromotes(Ty from, Ty to) { // same type, or a larger one of the same kind
  if (from == to) return true;
  auto kind = [](Ty t) { return t >= Ty::f32 ? 2 : ((int)t % 2); };
  return kind(from) == kind(to) && tySize(to) > tySize(from);
}
inline bool tyFloat(Ty t) { return t >= Ty::f32; }

struct Property {
  std::string name;
  bool list = false;
  Ty countTy = Ty::u8, ty = Ty::i32;
  std::string data;           // packed values
  std::vector<size_t> starts; // of lists
};

class Element {
public:
  std::string name;
  size_t count;
  std::vector<Property> props;

  Element(const std::string& n, size_t c) : name(n), count(c) {}
  bool hasProperty(const std::string& p) {
    for (auto& q : props)
      if (q.name == p) return true;
    return false;
  }
  Property& prop(const std::string& p) {
    for (auto& q : props)
      if (q.name == p) return q;
    throw std::runtime_error("PLY parser: element " + name + " does not have property " + p);
  }
  void drop(const std::string& p) {
    for (size_t i = 0; i < props.size(); i++)
      if (props[i].name == p) {
        props.erase(props.begin() + i);
        return;
      }
  }
  template <class T>
  void addProperty(const std::string& p, const std::vector<T>& d) {
    if (d.size() != count) throw std::runtime_error("PLY write: new property " + p + " has size which does not match element");
    drop(p);
    Property q;
    q.name = p;
    q.ty = TyOf<T>::v;
    q.data.assign((const char*)d.data(), d.size() * sizeof(T));
    props.push_back(q);
  }
  template <class T>
  void addListProperty(const std::string& p, const std::vector<std::vector<T>>& d) {
    if (d.size() != count) throw std::runtime_error("PLY write: new property " + p + " has size which does not match element");
    drop(p);
    Property q;
    q.name = p;
    q.list = true;
    q.ty = TyOf<T>::v;
    q.starts.push_back(0);
    for (auto& l : d) {
      if (l.size() > 255) throw std::runtime_error("List property has an element with more entries than fit in a uchar");
      q.data.append((const char*)l.data(), l.size() * sizeof(T));
      q.starts.push_back(q.starts.back() + l.size());
    }
    props.push_back(q);
  }
  template <class T>
  std::vector<T> getProperty(const std::string& p) {
    Property& q = prop(p);
    if (q.list || !tyPromotes(q.ty, TyOf<T>::v))
      throw std::runtime_error("PLY parser: property " + p + " cannot be coerced to the requested type");
    std::vector<T> r(count);
    for (size_t i = 0; i < count; i++) r[i] = tyGet<T>(q.ty, q.data.data() + i * tySize(q.ty));
    return r;
  }
};

class PLYData {
public:
  std::vector<Element> elements;
  std::vector<std::string> comments;

  PLYData() {}
  PLYData(const std::string& filename, bool = false) {
    std::ifstream in(filename, std::ios::binary);
    if (in.fail()) throw std::runtime_error("PLY parser: Could not open file " + filename);
    parse(in);
  }
  PLYData(std::istream& in, bool = false) { parse(in); }

  bool hasElement(const std::string& n) {
    for (auto& e : elements)
      if (e.name == n) return true;
    return false;
  }
  Element& getElement(const std::string& n) {
    for (auto& e : elements)
      if (e.name == n) return e;
    throw std::runtime_error("PLY parser: no element with name: " + n);
  }
  void addElement(const std::string& n, size_t c) {
    elements.reserve(64);
    elements.emplace_back(n, c);
  }
  std::vector<std::array<double, 3>> getVertexPositions() {
    Element& e = getElement("vertex");
    std::vector<double> x = e.getProperty<double>("x"), y = e.getProperty<double>("y"), z = e.getProperty<double>("z");
    std::vector<std::array<double, 3>> r(x.size());
    for (size_t i = 0; i < x.size(); i++) r[i] = {{x[i], y[i], z[i]}};
    return r;
  }
  std::vector<std::vector<size_t>> getFaceIndices() {
    Element& e = getElement("face");
    for (const char* n : {"vertex_indices", "vertex_index"})
      if (e.hasProperty(n)) {
        Property& q = e.prop(n);
        if (!q.list || tyFloat(q.ty)) throw std::runtime_error("PLY parser: face indices are not an integer list");
        std::vector<std::vector<size_t>> r(e.count);
        for (size_t i = 0; i < e.count; i++)
          for (size_t j = q.starts[i]; j < q.starts[i + 1]; j++)
            r[i].push_back(tyGet<size_t>(q.ty, q.data.data() + j * tySize(q.ty)));
        return r;
      }
    throw std::runtime_error("PLY parser: could not find face vertex indices");
  }
  void addVertexPositions(std::vector<std::array<double, 3>>& p) {
    if (!hasElement("vertex")) addElement("vertex", p.size());
    std::vector<double> c(p.size());
    const char* n[] = {"x", "y", "z"};
    for (int k = 0; k < 3; k++) {
      for (size_t i = 0; i < p.size(); i++) c[i] = p[i][k];
      getElement("vertex").addProperty<double>(n[k], c);
    }
  }
  template <class T>
  void addFaceIndices(std::vector<std::vector<T>>& ind) {
    if (!hasElement("face")) addElement("face", ind.size());
    std::vector<std::vector<int32_t>> d(ind.size());
    for (size_t i = 0; i < ind.size(); i++)
      for (T v : ind[i]) d[i].push_back((int32_t)v);
    getElement("face").addListProperty<int32_t>("vertex_indices", d);
  }

  void write(const std::string& filename, DataFormat f = DataFormat::ASCII) {
    std::ofstream out(filename, std::ios::binary);
    if (!out.good()) throw std::runtime_error("Ply writer: Could not open output file " + filename + " for writing");
    write(out, f);
  }
  void write(std::ostream& out, DataFormat f = DataFormat::ASCII) {
    if (f == DataFormat::BinaryBigEndian) throw std::runtime_error("stand-in: big endian is not supported");
    out << "ply\nformat " << (f == DataFormat::ASCII ? "ascii" : "binary_little_endian") << " 1.0\n";
    for (auto& e : elements) {
      out << "element " << e.name << " " << e.count << "\n";
      for (auto& p : e.props) {
        out << "property ";
        if (p.list) out << "list " << tyName(p.countTy) << " ";
        out << tyName(p.ty) << " " << p.name << "\n";
      }
    }
    out << "end_header\n";
    for (auto& e : elements)
      for (size_t i = 0; i < e.count; i++) {
        for (size_t k = 0; k < e.props.size(); k++) {
          Property& p = e.props[k];
          size_t b = p.list ? p.starts[i] : i, n = p.list ? p.starts[i + 1] - b : 1, s = tySize(p.ty);
          if (f == DataFormat::Binary) {
            if (p.list) {
              uint8_t c = (uint8_t)n;
              out.write((char*)&c, 1);
            }
            out.write(p.data.data() + b * s, n * s);
          } else {
            if (p.list) out << n << " ";
            for (size_t j = 0; j < n; j++) {
              std::ostringstream os;
              os.precision(std::numeric_limits<double>::max_digits10);
              if (tyFloat(p.ty)) os << tyGet<double>(p.ty, p.data.data() + (b + j) * s);
              else os << tyGet<long long>(p.ty, p.data.data() + (b + j) * s);
              out << os.str() << " ";
            }
          }
        }
        if (f == DataFormat::ASCII) out << "\n";
      }
  }

private:
  static std::string getLine(std::istream& in) {
    std::string l;
    if (!std::getline(in, l)) throw std::runtime_error("PLY parser: unexpected end of header");
    while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back();
    return l;
  }
  void parse(std::istream& in) {
    if (getLine(in) != "ply") throw std::runtime_error("PLY parser: File does not appear to be ply file. First line should be 'ply'");
    bool ascii = false, haveFmt = false;
    elements.reserve(64);
    while (true) {
      std::istringstream is(getLine(in));
      std::string w;
      is >> w;
      if (w == "format") {
        is >> w;
        haveFmt = true;
        if (w == "ascii") ascii = true;
        else if (w != "binary_little_endian") throw std::runtime_error("PLY parser: unsupported format");
      } else if (w == "element") {
        std::string n;
        size_t c;
        if (!(is >> n >> c)) throw std::runtime_error("PLY parser: bad element line");
        elements.emplace_back(n, c);
      } else if (w == "property") {
        if (elements.empty()) throw std::runtime_error("PLY parser: property before element");
        Property p;
        is >> w;
        if (w == "list") {
          p.list = true;
          std::string a, b;
          is >> a >> b >> p.name;
          p.countTy = tyParse(a);
          p.ty = tyParse(b);
          p.starts.push_back(0);
        } else {
          p.ty = tyParse(w);
          is >> p.name;
        }
        elements.back().props.push_back(p);
      } else if (w == "end_header")
        break;
    }
    if (!haveFmt) throw std::runtime_error("PLY parser: no format");
    for (auto& e : elements)
      for (size_t i = 0; i < e.count; i++)
        for (auto& p : e.props) {
          size_t n = 1;
          if (p.list) {
            if (ascii) {
              if (!(in >> n)) throw std::runtime_error("PLY parser: unexpected end of file");
            } else {
              char b[8];
              in.read(b, tySize(p.countTy));
              if (!in) throw std::runtime_error("PLY parser: unexpected end of file");
              n = tyGet<size_t>(p.countTy, b);
            }
            p.starts.push_back(p.starts.back() + n);
          }
          for (size_t j = 0; j < n; j++) {
            char b[8];
            if (ascii) {
              if (tyFloat(p.ty)) {
                std::string t;
                if (!(in >> t)) throw std::runtime_error("PLY parser: unexpected end of file");
                double d = strtod(t.c_str(), nullptr);
                if (p.ty == Ty::f32) {
                  float f = (float)d;
                  memcpy(b, &f, 4);
                } else
                  memcpy(b, &d, 8);
              } else {
                long long v;
                if (!(in >> v)) throw std::runtime_error("PLY parser: unexpected end of file");
                memcpy(b, &v, 8); // little endian: the low bytes
              }
            } else {
              in.read(b, tySize(p.ty));
              if (!in) throw std::runtime_error("PLY parser: unexpected end of file");
            }
            p.data.append(b, tySize(p.ty));
          }
        }
  }
};

} // namespace happly
