// Implementation of the engine; included once per harness binary.
#pragma once
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096:"
         "detect_stack_use_after_return=0:handle_abort=1:allow_user_segv_handler=0:quarantine_size_mb=32:"
         "malloc_context_size=8";
}

namespace pbt {

static std::set<std::string> g_known; // listed finding ids
static std::function<void()> g_reset = [] {};

inline void G::known(const std::string& id, const std::string& m) {
  if (g_known.count(id)) throw KnownFinding{id};
  throw Failure{m + " (finding " + id + ", not listed)"};
}

static inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

inline uint64_t G::draw(uint64_t bound) {
  uint64_t v;
  if (n >= cap) throw Discard();
  if (replaying) {
    v = n < input.size() ? input[n] : 0;
    if (v > bound) v = bound;
  } else {
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t r = mix64(rng);
    v = bound == UINT64_MAX ? r : (uint64_t)(((unsigned __int128)r * (bound + 1)) >> 64);
  }
  rec[n++] = v;
  *recN = n;
  return v;
}

static const size_t CAP = 1 << 17;

struct Slot {
  volatile uint64_t seq; // bumps at each case
  volatile int prop;
  volatile uint64_t idx;
  volatile uint64_t recN;
  volatile int status; // 0 running 1 pass 2 fail 3 discard 4 known 5 done
  char msg[8192];
  uint64_t rec[CAP];
};

enum { RUNNING, PASS, FAIL, DISCARD, KNOWN, DONE };

static uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

// executes one case in this process
static int execCase(const Prop& p, G& g, Slot* sl, std::string* knownId = nullptr) {
  g.rec = sl->rec;
  g.recN = &sl->recN;
  g.cap = CAP;
  sl->recN = 0;
  g.n = 0;
  sl->msg[0] = 0;
  srand(12345);
  g_reset();
  int st;
  std::string m;
  try {
    p.fn(g);
    st = PASS;
  } catch (Discard&) {
    st = DISCARD;
  } catch (Failure& f) {
    st = FAIL;
    m = f.msg;
  } catch (KnownFinding& k) {
    st = KNOWN;
    m = k.id;
    if (knownId) *knownId = k.id;
  } catch (std::exception& e) {
    st = FAIL;
    m = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    st = FAIL;
    m = "unexpected exception of unknown type";
  }
  if (!m.empty()) {
    strncpy(sl->msg, m.c_str(), sizeof(sl->msg) - 1);
    sl->msg[sizeof(sl->msg) - 1] = 0;
  }
  return st;
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static double cpuOf(pid_t pid) {
  clockid_t c;
  if (clock_getcpuclockid(pid, &c)) return -1;
  timespec t;
  if (clock_gettime(c, &t)) return -1;
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static void silence(const std::string& errTo) {
  fflush(stdout);
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  if (errTo.empty()) {
    dup2(n, 2);
  } else {
    int f = open(errTo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (f >= 0) dup2(f, 2);
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

struct Outcome {
  int st = PASS;
  std::string msg, desc;
  std::vector<uint64_t> used;
};

static char* g_descBuf = nullptr; // shared

// run a recorded sequence in a fresh child
static Outcome runIsolated(const Prop& p, const std::vector<uint64_t>& in, Slot* sl, double cpuLimit,
                           const std::string& errTo = "") {
  sl->status = RUNNING;
  sl->recN = 0;
  sl->msg[0] = 0;
  if (g_descBuf) g_descBuf[0] = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    silence(errTo);
    G g;
    g.replaying = true;
    g.input = in;
    int st = execCase(p, g, sl);
    if (g_descBuf) {
      strncpy(g_descBuf, g.desc.c_str(), 7999);
      g_descBuf[7999] = 0;
    }
    sl->status = st;
    _exit(0);
  }
  Outcome o;
  double t0 = now();
  int ws = 0;
  bool hang = false;
  useconds_t nap = 300;
  while (true) {
    pid_t r = waitpid(pid, &ws, WNOHANG);
    if (r == pid) break;
    if (r < 0) break;
    double c = cpuOf(pid);
    if (c > cpuLimit || now() - t0 > 6 * cpuLimit + 60) {
      hang = true;
      kill(pid, SIGKILL);
      waitpid(pid, &ws, 0);
      break;
    }
    usleep(nap);
    if (nap < 5000) nap = nap * 3 / 2;
  }
  o.used.assign(sl->rec, sl->rec + sl->recN);
  if (hang) {
    o.st = FAIL;
    o.msg = "does not terminate (" + std::to_string(cpuLimit) + " CPU seconds used)";
  } else if (sl->status == RUNNING) {
    o.st = FAIL;
    if (WIFSIGNALED(ws))
      o.msg = std::string("crashed: signal ") + strsignal(WTERMSIG(ws));
    else
      o.msg = "crashed: sanitizer report or exit code " + std::to_string(WEXITSTATUS(ws));
  } else {
    o.st = sl->status;
    o.msg = sl->msg;
  }
  if (g_descBuf) o.desc = g_descBuf;
  return o;
}

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> cur, Slot* sl, double cpuLimit, bool wasHang,
                                    double budget, int& attempts) {
  double t0 = now();
  double lim = wasHang ? std::min(cpuLimit, 3.) : cpuLimit;
  std::set<uint64_t> tried;
  auto h = [](const std::vector<uint64_t>& v) {
    uint64_t x = v.size();
    for (uint64_t a : v) x = mix64(x ^ a);
    return x;
  };
  auto over = [&] { return now() - t0 > budget || attempts > 4000; };
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (over()) return false;
    if (!tried.insert(h(c)).second) return false;
    attempts++;
    Outcome o = runIsolated(p, c, sl, lim);
    if (o.st != FAIL) return false;
    bool hang = o.msg.rfind("does not terminate", 0) == 0;
    if (hang != wasHang) return false;
    // keep only what was consumed; must be simpler (shortlex)
    std::vector<uint64_t> u = o.used;
    while (!u.empty() && u.back() == 0) u.pop_back();
    if (u.size() < cur.size() || (u.size() == cur.size() && u < cur)) {
      cur = u;
      return true;
    }
    return false;
  };
  {
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
  }
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = cur.size(); i-- > 0 && !over();) {
        if (i + k > cur.size()) continue;
        std::vector<uint64_t> c = cur;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) {
          progress = true;
          continue;
        }
        // deleting elements of a list usually needs the length lowered as well
        if (i > 0 && c[i - 1] > 0 && k <= 4) {
          c[i - 1]--;
          if (attempt(c)) progress = true;
        }
      }
    }
    for (size_t k : {32, 8, 2}) {
      for (size_t i = 0; i + k <= cur.size() && !over(); i += k) {
        std::vector<uint64_t> c = cur;
        bool any = false;
        for (size_t j = i; j < i + k; j++) {
          any |= c[j] != 0;
          c[j] = 0;
        }
        if (any && attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < cur.size() && !over(); i++) {
      if (cur[i] == 0) continue;
      std::vector<uint64_t> c = cur;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = cur[i];
      int guard = 0;
      while (lo + 1 < hi && guard++ < 24 && !over() && i < cur.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = cur;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          hi = mid;
          if (i >= cur.size() || cur[i] != mid) break;
        } else
          lo = mid;
      }
    }
  }
  return cur;
}

static std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

struct Stats {
  uint64_t cases = 0, discards = 0, nontriv = 0, known = 0;
  double cpu = 0, maxCpu = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

static double selfCpu() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static std::string readAll(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

inline int run(int argc, char** argv, const std::vector<Spec>& specs) {
  std::string id, tier = "quick", evidence, replayDir = ".", replayFile, knownFile, only;
  uint64_t seed = 1;
  double scale = 1, wall = 0;
  int W = 8;
  bool listCase = false;
  long long oneCase = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--id") id = val();
    else if (a == "--tier") tier = val();
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay-dir") replayDir = val();
    else if (a == "--replay") replayFile = val();
    else if (a == "--known") knownFile = val();
    else if (a == "--only") only = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--wall") wall = atof(val().c_str());
    else if (a == "--jobs") W = atoi(val().c_str());
    else if (a == "--case") oneCase = atoll(val().c_str());
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 4;
    }
  }
  if (wall == 0) wall = tier == "quick" ? 300 : 5400;
  const Spec* spec = nullptr;
  for (auto& s : specs)
    if (s.id == id || (id.empty() && specs.size() == 1)) spec = &s;
  if (!spec) {
    fprintf(stderr, "no such property in this harness: %s\n", id.c_str());
    return 4;
  }
  id = spec->id;
  std::vector<Prop> props;
  for (auto& p : spec->props)
    if (only.empty() || ("," + only + ",").find("," + p.name + ",") != std::string::npos) props.push_back(p);

  // known findings: lines "<property> <finding id> <text>"
  std::map<std::string, std::string> knownText;
  if (!knownFile.empty()) {
    std::ifstream f(knownFile);
    std::string line;
    while (std::getline(f, line)) {
      if (line.rfind("known: property=", 0)) continue;
      std::istringstream is(line.substr(16));
      std::string pid, kid, text;
      is >> pid >> kid;
      std::getline(is, text);
      if (pid == id) {
        g_known.insert(kid);
        knownText[kid] = text;
      }
    }
  }

  auto shared = [](size_t n) {
    void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) {
      perror("mmap");
      exit(5);
    }
    return m;
  };
  g_descBuf = (char*)shared(8192);
  Slot* slots = (Slot*)shared(sizeof(Slot) * (W + 1));
  Slot* aux = &slots[W];

  auto parseReplay = [&](const std::string& path, const Prop*& p) {
    std::ifstream f(path);
    std::string line;
    std::vector<uint64_t> c;
    p = nullptr;
    while (std::getline(f, line)) {
      if (line.rfind("sub=", 0) == 0)
        for (auto& q : spec->props)
          if (q.name == line.substr(4)) p = &q;
      if (line.rfind("choices=", 0) == 0) {
        std::istringstream is(line.substr(8));
        uint64_t v;
        while (is >> v) c.push_back(v);
      }
    }
    return c;
  };

  if (!replayFile.empty()) {
    const Prop* p;
    std::vector<uint64_t> c = parseReplay(replayFile, p);
    if (!p) {
      fprintf(stderr, "replay file names no sub-property of %s\n", id.c_str());
      return 4;
    }
    std::string err = replayFile + ".stderr";
    Outcome o = runIsolated(*p, c, aux, p->cpuLimit, err);
    printf("sub-property: %s\ncase: %s\n", p->name.c_str(), o.desc.c_str());
    std::string e = readAll(err);
    unlink(err.c_str());
    if (o.st == FAIL && !e.empty()) printf("stderr:\n%s\n", e.substr(0, 6000).c_str());
    printf("%s: %s\n", o.st == FAIL ? "FAIL" : o.st == KNOWN ? "KNOWN" : o.st == DISCARD ? "DISCARD" : "PASS", o.msg.c_str());
    if (o.st == FAIL) printf("VIOLATION property=%s replay=%s\n", id.c_str(), replayFile.c_str());
    return o.st == FAIL ? 1 : 0;
  }

  double T0 = now();
  const int ROUNDS = 50;
  std::vector<uint64_t> counts;
  for (auto& p : props) counts.push_back((uint64_t)std::ceil((tier == "quick" ? p.quick : p.thorough) * scale));
  if (tier == "quick")
    for (auto& c : counts) c = std::max<uint64_t>(c, 1);

  char tmpl[] = "/tmp/pbt.XXXXXX";
  std::string tmp = mkdtemp(tmpl);

  auto caseSeed = [&](size_t pi, uint64_t i) { return mix64(mix64(seed ^ hashStr(props[pi].name)) + i * 0x632be59bd9b4e019ull); };

  if (oneCase >= 0) { // debugging aid: run one seeded case of the (only) sub-property in process
    G g;
    g.rng = caseSeed(0, oneCase);
    int st = execCase(props[0], g, aux);
    printf("case: %s\nstatus %d: %s\n", g.desc.c_str(), st, aux->msg);
    return st == FAIL;
  }

  auto worker = [&](int w, int startRound, size_t startProp, uint64_t startIdx) {
    Slot* sl = &slots[w];
    silence(tmp + "/err." + std::to_string(w));
    std::vector<Stats> st(props.size());
    std::ofstream hashes(tmp + "/hash." + std::to_string(w), std::ios::binary);
    bool out = false;
    for (int r = startRound; r < ROUNDS && !out; r++)
      for (size_t pi = 0; pi < props.size() && !out; pi++) {
        uint64_t a = counts[pi] * r / ROUNDS, b = counts[pi] * (r + 1) / ROUNDS;
        for (uint64_t i = a; i < b; i++) {
          if ((int)(mix64(i * 31 + pi) % W) != w) continue;
          if (now() - T0 > wall) {
            out = true;
            break;
          }
          sl->prop = (int)pi;
          sl->idx = i;
          sl->status = RUNNING;
          sl->seq = sl->seq + 1;
          G g;
          g.rng = caseSeed(pi, i);
          double c0 = selfCpu();
          int s = execCase(props[pi], g, sl);
          double dc = selfCpu() - c0;
          Stats& S = st[pi];
          S.cases++;
          S.cpu += dc;
          S.maxCpu = std::max(S.maxCpu, dc);
          if (s == FAIL) {
            sl->status = FAIL;
            _exit(10);
          }
          if (s == DISCARD) {
            S.discards++;
            continue;
          }
          if (s == KNOWN) {
            S.known++;
            S.labels["known finding " + std::string(sl->msg)]++;
            continue;
          }
          for (auto& l : g.labels) S.labels[l]++;
          if (g.isNontrivial) {
            S.nontriv++;
            uint64_t hh = hashStr(props[pi].name);
            for (uint64_t k = 0; k < g.n; k++) hh = mix64(hh ^ sl->rec[k]);
            hashes.write((char*)&hh, 8);
            if (S.samples.size() < 2 && !g.desc.empty() && (S.nontriv == 3 || S.nontriv == 40)) S.samples.push_back(g.desc);
          }
        }
      }
    hashes.close();
    std::ofstream f(tmp + "/stats." + std::to_string(w));
    for (size_t pi = 0; pi < props.size(); pi++) {
      Stats& S = st[pi];
      f << "P " << pi << " " << S.cases << " " << S.discards << " " << S.nontriv << " " << S.known << " " << S.cpu << " "
        << S.maxCpu << "\n";
      for (auto& l : S.labels) f << "L " << pi << " " << l.second << " " << l.first << "\n";
      for (auto& x : S.samples) {
        std::string y = x;
        for (auto& c : y)
          if (c == '\n') c = ' ';
        f << "S " << pi << " " << y << "\n";
      }
    }
    f.close();
    sl->status = DONE;
    _exit(0);
  };

  std::vector<pid_t> pids(W);
  std::vector<uint64_t> lastSeq(W, ~0ull);
  std::vector<double> cpuAt(W, 0);
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) worker(w, 0, 0, 0);
    pids[w] = p;
  }
  int alive = W, failW = -1;
  std::string failMsg;
  bool failHang = false;
  while (alive > 0 && failW < 0) {
    int ws;
    pid_t r = waitpid(-1, &ws, WNOHANG);
    if (r > 0) {
      for (int w = 0; w < W; w++)
        if (pids[w] == r) {
          alive--;
          pids[w] = 0;
          if (slots[w].status != DONE) {
            failW = w;
            if (WIFEXITED(ws) && WEXITSTATUS(ws) == 10)
              failMsg = slots[w].msg;
            else if (WIFSIGNALED(ws))
              failMsg = std::string("crashed: signal ") + strsignal(WTERMSIG(ws));
            else
              failMsg = "crashed: sanitizer report or exit code " + std::to_string(WEXITSTATUS(ws));
          }
        }
      continue;
    }
    for (int w = 0; w < W; w++) {
      if (!pids[w]) continue;
      double c = cpuOf(pids[w]);
      if (slots[w].seq != lastSeq[w]) {
        lastSeq[w] = slots[w].seq;
        cpuAt[w] = c;
      } else if (slots[w].status == RUNNING && c - cpuAt[w] > props[slots[w].prop].cpuLimit && slots[w].seq > 0) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &ws, 0);
        pids[w] = 0;
        failW = w;
        failHang = true;
        failMsg = "does not terminate";
        break;
      }
    }
    usleep(20000);
  }
  for (int w = 0; w < W; w++)
    if (pids[w]) {
      kill(pids[w], SIGKILL);
      int ws;
      waitpid(pids[w], &ws, 0);
    }

  int rc = 0;
  int violations = 0;
  std::string note;
  if (failW >= 0) {
    Slot& sl = slots[failW];
    const Prop& p = props[sl.prop];
    std::vector<uint64_t> c(sl.rec, sl.rec + sl.recN);
    // replay: it has to fail three times out of three from its choices alone
    int fails = 0;
    Outcome o;
    int reps = failHang ? 2 : 3;
    for (int k = 0; k < reps; k++) {
      o = runIsolated(p, c, aux, p.cpuLimit);
      if (o.st == FAIL) fails++;
      else break;
    }
    if (fails < reps) {
      // not a function of the choices: report as an error of the check, never as a violation
      printf("UNSTABLE property=%s sub=%s case=%llu: first run failed (%s), replay did not\n", id.c_str(), p.name.c_str(),
             (unsigned long long)sl.idx, failMsg.c_str());
      std::string e = readAll(tmp + "/err." + std::to_string(failW));
      printf("%s\n", e.substr(0, 3000).c_str());
      rc = 6;
    } else {
      bool hang = o.msg.rfind("does not terminate", 0) == 0;
      int attempts = 0;
      std::vector<uint64_t> m = shrink(p, c, aux, p.cpuLimit, hang, 45, attempts);
      std::string err = tmp + "/final.err";
      Outcome f = runIsolated(p, m, aux, p.cpuLimit, err);
      if (f.st != FAIL) {
        m = c;
        f = runIsolated(p, m, aux, p.cpuLimit, err);
      }
      mkdir(replayDir.c_str(), 0755);
      uint64_t hh = 0;
      for (uint64_t v : m) hh = mix64(hh ^ v);
      char nm[64];
      snprintf(nm, sizeof nm, "%08llx", (unsigned long long)(hh & 0xffffffffull));
      std::string path = replayDir + "/" + id + "-" + p.name + "-" + nm + ".replay";
      std::ofstream of(path);
      of << "property=" << id << "\nsub=" << p.name << "\nseed=" << seed << " case=" << sl.idx << "\nmessage=" << f.msg
         << "\ncase=" << f.desc << "\nchoices=";
      for (uint64_t v : m) of << v << " ";
      of << "\nshrunk from " << c.size() << " to " << m.size() << " choices in " << attempts << " attempts\n";
      std::string e = readAll(err);
      if (!e.empty()) of << "stderr:\n" << e.substr(0, 8000) << "\n";
      of.close();
      printf("FAILED sub-property %s: %s\n  case: %s\n", p.name.c_str(), f.msg.c_str(), f.desc.substr(0, 1500).c_str());
      if (!e.empty()) printf("  stderr: %s\n", e.substr(0, 1500).c_str());
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
      rc = 1;
      violations = 1;
    }
  }

  // ---- evidence
  std::vector<Stats> tot(props.size());
  std::set<uint64_t> hs;
  for (int w = 0; w < W; w++) {
    std::ifstream f(tmp + "/stats." + std::to_string(w));
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      char k;
      size_t pi;
      is >> k >> pi;
      if (pi >= props.size()) continue;
      Stats& S = tot[pi];
      if (k == 'P') {
        uint64_t a, b, c, d;
        double x, y;
        is >> a >> b >> c >> d >> x >> y;
        S.cases += a;
        S.discards += b;
        S.nontriv += c;
        S.known += d;
        S.cpu += x;
        S.maxCpu = std::max(S.maxCpu, y);
      } else if (k == 'L') {
        uint64_t cnt;
        is >> cnt;
        std::string l;
        std::getline(is, l);
        S.labels[l.substr(1)] += cnt;
      } else if (k == 'S') {
        std::string l;
        std::getline(is, l);
        if (S.samples.size() < 3) S.samples.push_back(l.substr(1));
      }
    }
    std::string h = readAll(tmp + "/hash." + std::to_string(w));
    for (size_t i = 0; i + 8 <= h.size(); i += 8) {
      uint64_t v;
      memcpy(&v, h.data() + i, 8);
      hs.insert(v);
    }
  }
  uint64_t ev = 0, disc = 0, planned = 0;
  for (auto& S : tot) {
    ev += S.cases;
    disc += S.discards;
  }
  for (auto c : counts) planned += c;
  double wallS = now() - T0;
  std::map<std::string, uint64_t> knownHit;
  for (auto& S : tot)
    for (auto& l : S.labels)
      if (l.first.rfind("known finding ", 0) == 0) knownHit[l.first.substr(14)] += l.second;
  for (auto& k : knownText)
    printf("KNOWN-FINDING: property=%s %s%s (reproduced by %llu generated cases of this run)\n", id.c_str(), k.first.c_str(),
           k.second.c_str(), (unsigned long long)knownHit[k.first]);
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
      << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n  \"discarded\": " << disc << ",\n  \"planned\": " << planned
      << ",\n  \"rule\": \"" << jsonEsc(spec->rule) << "\",\n  \"samples\": [";
    bool first = true;
    for (size_t pi = 0; pi < props.size(); pi++)
      for (auto& x : tot[pi].samples) {
        f << (first ? "\n" : ",\n") << "   \"" << jsonEsc(props[pi].name + ": " + x.substr(0, 700)) << "\"";
        first = false;
      }
    f << "\n  ],\n  \"by_subproperty\": {";
    for (size_t pi = 0; pi < props.size(); pi++) {
      Stats& S = tot[pi];
      f << (pi ? ",\n" : "\n") << "   \"" << jsonEsc(props[pi].name) << "\": {\"cases\": " << S.cases
        << ", \"discarded\": " << S.discards << ", \"nontrivial\": " << S.nontriv << ", \"cpu_s\": " << S.cpu
        << ", \"max_case_cpu_s\": " << S.maxCpu << ", \"labels\": {";
      bool fl = true;
      for (auto& l : S.labels) {
        f << (fl ? "" : ", ") << "\"" << jsonEsc(l.first) << "\": " << l.second;
        fl = false;
      }
      f << "}}";
    }
    f << "\n  }\n },\n \"assumptions\": [";
    for (size_t i = 0; i < spec->assumptions.size(); i++) f << (i ? ", " : "") << "\"" << jsonEsc(spec->assumptions[i]) << "\"";
    f << "],\n \"violations\": " << violations << ",\n \"wall_s\": " << wallS << "\n}\n";
  }
  printf("%s %s seed=%llu: %llu cases of %llu planned, %zu distinct non-trivial, %llu discarded, %.1f s\n", id.c_str(), tier.c_str(),
         (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)planned, hs.size(), (unsigned long long)disc, wallS);
  if (getenv("PBT_VERBOSE"))
    for (size_t pi = 0; pi < props.size(); pi++) {
      Stats& S = tot[pi];
      printf("  %-28s cases %-7llu disc %-6llu nontriv %-7llu cpu %.2f max %.3f\n", props[pi].name.c_str(),
             (unsigned long long)S.cases, (unsigned long long)S.discards, (unsigned long long)S.nontriv, S.cpu, S.maxCpu);
      for (auto& l : S.labels) printf("      %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    }
  for (int w = 0; w < W; w++)
    for (const char* k : {"/err.", "/hash.", "/stats."}) unlink((tmp + k + std::to_string(w)).c_str());
  unlink((tmp + "/final.err").c_str());
  rmdir(tmp.c_str());
  return rc;
}

} // namespace pbt
