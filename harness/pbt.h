// A small property-based-testing engine (choice-sequence based, like Hypothesis).
//
// Every case is a pure function of a finite sequence of bounded integer choices.  A fresh
// case draws them from a PRNG seeded by (VERIF_SEED, property, case index); shrinking edits
// the recorded sequence (delete / zero / lower) and re-executes; a replay file is that
// sequence.  Cases run in forked workers, so that a crash, a sanitizer report or a hang of
// the code under test is an ordinary, shrinkable failure.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string msg;
};
struct KnownFinding {
  std::string id;
};

class G {
public:
  // ---- choices
  // uniform in [0, bound]; 0 is the simplest value
  uint64_t draw(uint64_t bound);
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : draw(n - 1); }
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo)); }
  bool chance(double p) { // simplest: false
    uint64_t v = draw(9999);
    return v >= (uint64_t)std::llround((1. - p) * 10000.);
  }
  bool coin() { return draw(1) == 1; }
  double unit() { return (double)draw((1u << 24)) / (double)(1u << 24); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // in [-a,a], simplest 0
  double jitter(double a) {
    uint64_t v = draw((1u << 24));
    double m = (double)((v + 1) / 2) / (double)(1u << 23);
    return (v & 1) ? a * m : -a * m;
  }
  // weighted index, simplest 0
  size_t weighted(const std::vector<int>& w) {
    uint64_t tot = 0;
    for (int x : w) tot += x;
    uint64_t v = below(tot);
    for (size_t i = 0; i < w.size(); i++) {
      if (v < (uint64_t)w[i]) return i;
      v -= w[i];
    }
    return 0;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    if (v.empty()) throw Discard();
    return v[below(v.size())];
  }
  std::vector<size_t> perm(size_t n) { // simplest: identity
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; i++) p[i] = i;
    for (size_t i = 0; i + 1 < n; i++) std::swap(p[i], p[i + below(n - i)]);
    return p;
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    std::vector<size_t> p = perm(v.size());
    std::vector<T> o;
    o.reserve(v.size());
    for (size_t i : p) o.push_back(v[i]);
    v = o;
  }

  // ---- reporting
  void label(const std::string& s) { labels.insert(s); }
  void nontrivial() { isNontrivial = true; }
  template <typename... A>
  void note(const A&... a) {
    if (desc.size() > 6000) return;
    std::ostringstream os;
    int unused[] = {0, ((void)(os << a), 0)...};
    (void)unused;
    if (!desc.empty()) desc += "; ";
    desc += os.str();
  }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  [[noreturn]] void discard() { throw Discard(); }
  // this failing condition is a finding listed in known_findings (id); a finding that is
  // not listed there is an ordinary failure
  [[noreturn]] void known(const std::string& id, const std::string& m);

  // ---- engine side
  bool replaying = false;
  std::vector<uint64_t> input;
  uint64_t* rec = nullptr; // shared buffer
  volatile uint64_t* recN = nullptr;
  uint64_t n = 0, cap = 0, rng = 0;
  std::set<std::string> labels;
  bool isNontrivial = false;
  std::string desc;
};

struct Prop {
  std::string name;
  std::function<void(G&)> fn;
  int quick, thorough;     // numbers of generated cases
  double cpuLimit = 20.;   // CPU seconds after which a case counts as non-terminating
};

struct Spec {
  std::string id;   // property id
  std::string rule; // how cases are made, what makes one non-trivial
  std::vector<Prop> props;
  std::vector<std::string> assumptions;
};

int run(int argc, char** argv, const std::vector<Spec>& specs);

} // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// REQ(g, cond, stream-expression)
#define REQ(g, cond, msg)                                                                                              \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      std::ostringstream os_;                                                                                          \
      os_.precision(17);                                                                                               \
      os_ << "[" #cond "] " << msg;                                                                                    \
      (g).fail(os_.str());                                                                                             \
    }                                                                                                                  \
  } while (0)

// |a-b| <= tol * (1 + scale)
#define REQ_NEAR(g, a, b, tol, msg)                                                                                    \
  do {                                                                                                                 \
    double a_ = (a), b_ = (b), t_ = (tol);                                                                             \
    if (!(std::fabs(a_ - b_) <= t_)) {                                                                                 \
      std::ostringstream os_;                                                                                          \
      os_.precision(17);                                                                                               \
      os_ << "[" #a " ~ " #b "] " << a_ << " vs " << b_ << " (tol " << t_ << ") " << msg;                              \
      (g).fail(os_.str());                                                                                             \
    }                                                                                                                  \
  } while (0)

// the expression must throw a std::exception (a clean rejection)
#define REQ_THROWS(g, expr, msg)                                                                                       \
  do {                                                                                                                 \
    bool threw_ = false;                                                                                               \
    try {                                                                                                              \
      expr;                                                                                                            \
    } catch (const std::exception&) {                                                                                  \
      threw_ = true;                                                                                                   \
    }                                                                                                                  \
    if (!threw_) {                                                                                                     \
      std::ostringstream os_;                                                                                          \
      os_ << "[" #expr "] was not rejected: " << msg;                                                                  \
      (g).fail(os_.str());                                                                                             \
    }                                                                                                                  \
  } while (0)
