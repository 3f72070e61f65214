// Bounded exhaustive exploration core: indexable finite spaces, forked workers,
// crash/hang attribution, violations with replay files, measured evidence.
#pragma once
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <random>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// Circuits seed themselves with 624 draws from the system's entropy source.
// A counter stands in for it, which is far cheaper and repeatable.
inline std::uint32_t mcEntropy() {
  static std::uint32_t x = 1;
  return x++ * 2654435761U;
}
std::random_device::result_type std::random_device::_M_getval() {
  return mcEntropy();
}

namespace mc {

inline std::uint64_t nowMs() {
  return static_cast<std::uint64_t>(
      std::chrono::duration_cast<std::chrono::milliseconds>(
          std::chrono::steady_clock::now().time_since_epoch())
          .count());
}
// CPU time used by a process: unlike the time of day, it stands still while the
// machine is busy with something else
inline std::uint64_t cpuMs() {
  timespec t{};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return static_cast<std::uint64_t>(t.tv_sec) * 1000U +
         static_cast<std::uint64_t>(t.tv_nsec) / 1000000U;
}
inline std::uint64_t cpuMs(pid_t p) {
  std::ifstream f("/proc/" + std::to_string(p) + "/stat");
  std::string s;
  std::getline(f, s);
  std::istringstream in(s.substr(s.rfind(')') == std::string::npos
                                     ? 0
                                     : s.rfind(')') + 1));
  std::string skip;
  std::uint64_t user = 0;
  std::uint64_t sys = 0;
  for (int i = 0; i < 11; ++i) {
    in >> skip;
  }
  in >> user >> sys;
  return (user + sys) * 1000U /
         static_cast<std::uint64_t>(sysconf(_SC_CLK_TCK));
}
inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30U)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27U)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31U);
}
inline std::uint64_t hashStr(const std::string& s) {
  std::uint64_t h = 1469598103934665603ULL;
  for (const unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return mix(h);
}
inline std::string jsonEsc(const std::string& s) {
  std::string r;
  for (const unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r;
}

struct Slot {
  std::atomic<std::uint64_t> cur, start, chunkEnd, cases, skipped, trans, checks;
  std::atomic<int> busy;
};
constexpr std::size_t MAXW = 16;
constexpr std::size_t HTAB = 1U << 23U;
struct Shared {
  std::atomic<std::uint64_t> next, nviol, distinct;
  std::atomic<int> stop;
  Slot slot[MAXW];
  std::atomic<std::uint64_t> tab[HTAB];
};

class Ctx {
public:
  Slot* s = nullptr;
  Shared* sh = nullptr;
  std::uint64_t idx = 0;
  bool thorough = false;
  bool replay = false;
  std::vector<std::pair<std::string, std::string>> fails;
  std::vector<std::string>* samples = nullptr;
  // report a violation; key identifies the kind of failure (deduplication,
  // known findings), msg describes it
  void fail(const std::string& key, const std::string& msg) {
    fails.emplace_back(key, msg);
  }
  bool check(bool ok, const std::string& key, const std::string& msg) {
    s->checks.fetch_add(1, std::memory_order_relaxed);
    if (!ok) {
      fail(key, msg);
    }
    return ok;
  }
  template <class F> bool checkf(bool ok, const char* key, F&& msg) {
    s->checks.fetch_add(1, std::memory_order_relaxed);
    if (!ok) {
      fail(key, msg());
    }
    return ok;
  }
  void trans(std::uint64_t n = 1) {
    s->trans.fetch_add(n, std::memory_order_relaxed);
  }
  // record a distinct model state (by hash)
  void state(std::uint64_t h) {
    h = mix(h);
    if (h == 0) {
      h = 1;
    }
    for (std::size_t i = h % HTAB, k = 0; k < 64; ++k, i = (i + 1) % HTAB) {
      auto v = sh->tab[i].load(std::memory_order_relaxed);
      if (v == h) {
        return;
      }
      if (v == 0) {
        if (sh->tab[i].compare_exchange_strong(v, h)) {
          sh->distinct.fetch_add(1, std::memory_order_relaxed);
          return;
        }
        if (v == h) {
          return;
        }
      }
    }
  }
  void skip() { s->skipped.fetch_add(1, std::memory_order_relaxed); }
  [[nodiscard]] bool wantSample() const {
    return samples != nullptr && samples->size() < 3;
  }
  void sample(const std::string& d) {
    if (wantSample()) {
      samples->push_back(d);
    }
  }
};

struct SpaceStat {
  std::string name, bounds;
  std::uint64_t size = 0, cases = 0, skipped = 0, trans = 0, checks = 0,
                crashes = 0, hangs = 0;
  bool complete = false;
  double wall = 0;
};

struct Violation {
  std::string space, key, msg;
  std::uint64_t idx = 0;
};

class Runner {
public:
  std::string id;
  std::string root = "/verif";
  bool thorough = false;
  std::uint64_t seed = 1;
  double budget = 600; // seconds for all spaces
  std::string replaySpace;
  std::uint64_t replayIdx = 0;
  bool isReplay = false;
  std::string onlySpace;
  std::uint64_t rlimitAs = 8ULL << 30U;
  std::size_t workers = 8;
  std::vector<std::string> assumptions;
  std::vector<std::string> samplesOut;

  Runner(int argc, char** argv, std::string pid) : id(std::move(pid)) {
    if (const char* e = std::getenv("VERIF_SEED")) {
      seed = std::strtoull(e, nullptr, 10);
    }
    if (const char* e = std::getenv("VERIF_ROOT")) {
      root = e;
    }
    if (const char* e = std::getenv("MC_WORKERS")) {
      workers = std::strtoul(e, nullptr, 10);
    }
    for (int i = 1; i < argc; ++i) {
      const std::string a = argv[i];
      if (a == "thorough") {
        thorough = true;
      } else if (a == "--replay" && i + 1 < argc) {
        std::ifstream f(argv[++i]);
        std::string l;
        while (std::getline(f, l)) {
          if (l.rfind("space=", 0) == 0) {
            replaySpace = l.substr(6);
          } else if (l.rfind("idx=", 0) == 0) {
            replayIdx = std::strtoull(l.c_str() + 4, nullptr, 10);
          } else if (l == "tier=thorough") {
            thorough = true;
          }
        }
        isReplay = true;
      } else if (a == "--case" && i + 2 < argc) {
        replaySpace = argv[++i];
        replayIdx = std::strtoull(argv[++i], nullptr, 10);
        isReplay = true;
      } else if (a == "--space" && i + 1 < argc) {
        onlySpace = argv[++i];
      }
    }
    budget = thorough ? 660 : 300;
    if (const char* e = std::getenv("MC_BUDGET")) {
      budget = std::strtod(e, nullptr);
    }
    t0 = nowMs();
    tmp = "/tmp/mc_" + id + "_" + std::to_string(getpid());
    ::mkdir(tmp.c_str(), 0700);
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) {
      std::perror("mmap");
      std::exit(3);
    }
    sh = static_cast<Shared*>(m);
  }
  Runner(const Runner&) = delete;
  ~Runner() = default;

  void assume(const std::string& a) { assumptions.push_back(a); }

  template <class F>
  void space(const std::string& name, std::uint64_t size,
             const std::string& bounds, F f, double caseTimeoutS = 20) {
    if (isReplay) {
      if (name == replaySpace) {
        runReplay(name, f);
      }
      return;
    }
    if (!onlySpace.empty() && name.find(onlySpace) == std::string::npos) {
      return;
    }
    SpaceStat st;
    st.name = name;
    st.bounds = bounds;
    st.size = size;
    const auto ts = nowMs();
    const double left = budget - static_cast<double>(ts - t0) / 1000.;
    if (left <= 1 || size == 0) {
      st.complete = size == 0;
      stats.push_back(st);
      return;
    }
    const std::uint64_t deadline =
        ts + static_cast<std::uint64_t>(left * 1000.);
    sh->next = 0;
    sh->nviol = 0;
    sh->stop = 0;
    const std::uint64_t chunk = std::max<std::uint64_t>(
        1, std::min<std::uint64_t>(512, size / (workers * 32)));
    for (auto& s : sh->slot) {
      s.cur = 0;
      s.start = 0;
      s.chunkEnd = 0;
      s.cases = 0;
      s.skipped = 0;
      s.trans = 0;
      s.checks = 0;
      s.busy = 0;
    }
    const std::size_t nw = std::min<std::uint64_t>(workers, size);
    std::vector<pid_t> pids(nw, -1);
    std::vector<bool> killedForHang(nw, false);
    std::vector<int> gen(nw, 0);
    // the case a worker is at, and how often it was found there
    std::vector<std::pair<std::uint64_t, std::uint64_t>> idle(nw, {0, 0});
    std::cout.flush();
    std::cerr.flush();
    auto launch = [&](std::size_t w, std::uint64_t from, std::uint64_t to) {
      const pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        worker(w, gen[w], name, size, chunk, from, to, f);
        _exit(0);
      }
      pids[w] = p;
    };
    for (std::size_t w = 0; w < nw; ++w) {
      launch(w, 0, 0);
    }
    std::size_t alive = nw;
    bool cut = false;
    while (alive > 0) {
      bool progressed = false;
      for (std::size_t w = 0; w < nw; ++w) {
        if (pids[w] < 0) {
          continue;
        }
        int status = 0;
        const pid_t r = waitpid(pids[w], &status, WNOHANG);
        if (r == pids[w]) {
          progressed = true;
          const bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
          pids[w] = -1;
          if (ok) {
            --alive;
          } else {
            auto& s = sh->slot[w];
            const std::uint64_t c = s.cur;
            std::string why;
            if (killedForHang[w]) {
              why = "hang (no result within the per-case time limit)";
              ++st.hangs;
            } else if (WIFSIGNALED(status)) {
              why = std::string("crash: ") + strsignal(WTERMSIG(status));
              ++st.crashes;
            } else {
              why = "abnormal exit status " +
                    std::to_string(WEXITSTATUS(status));
              ++st.crashes;
            }
            if (s.busy != 0) {
              Violation v;
              v.space = name;
              v.idx = c;
              v.key = name + (killedForHang[w] ? ":hang" : ":crash");
              v.msg = why + "; " + describeCrash(w, gen[w], name);
              viols.push_back(v);
              ++sh->nviol;
            } else {
              internalErrors.push_back("worker of space " + name +
                                       " ended outside a case: " + why + " " +
                                       describeCrash(w, gen[w], name));
            }
            killedForHang[w] = false;
            ++gen[w];
            if (s.busy != 0 && st.crashes + st.hangs < 30 && !cut &&
                sh->stop == 0) {
              const std::uint64_t e = s.chunkEnd;
              s.busy = 0;
              launch(w, c + 1, e);
            } else {
              --alive;
              sh->stop = 1;
            }
          }
        } else {
          auto& s = sh->slot[w];
          const std::uint64_t cur = s.cur;
          const std::uint64_t start = s.start;
          if (s.busy == 0 || idle[w].first != cur) {
            idle[w] = {cur, 0};
          } else {
            ++idle[w].second;
          }
          const auto used =
              idle[w].second % 100 == 99 ? cpuMs(pids[w]) : 0;
          // too much CPU time, or asleep for longer than can be explained
          if (s.busy != 0 && s.cur == cur &&
              ((used > start &&
                static_cast<double>(used - start) > caseTimeoutS * 1000) ||
               idle[w].second > 24000 + 200 * caseTimeoutS)) {
            killedForHang[w] = true;
            kill(pids[w], SIGKILL);
          }
        }
      }
      if (!cut && nowMs() > deadline) {
        cut = true;
        sh->stop = 1;
      }
      if (!progressed && alive > 0) {
        usleep(5000);
      }
    }
    for (std::size_t w = 0; w < nw; ++w) {
      auto& s = sh->slot[w];
      st.cases += s.cases;
      st.skipped += s.skipped;
      st.trans += s.trans;
      st.checks += s.checks;
    }
    collect(name);
    st.complete = !cut && sh->stop == 0;
    st.wall = static_cast<double>(nowMs() - ts) / 1000.;
    stats.push_back(st);
    std::cerr << "[" << id << "] space " << name << ": " << st.cases << "/"
              << st.size << " cases, " << st.skipped << " skipped, "
              << st.checks << " checks, " << st.wall << " s"
              << (st.complete ? "" : " (INCOMPLETE)") << "\n";
  }

  int finish() {
    if (isReplay) {
      cleanup();
      return replayFailed ? 1 : 0;
    }
    // known findings
    std::set<std::string> known;
    {
      std::ifstream f(root + "/known_findings.txt");
      std::string l;
      while (std::getline(f, l)) {
        const std::string pre = "known: property=" + id + " key=";
        if (l.rfind(pre, 0) == 0) {
          auto k = l.substr(pre.size());
          const auto sp = k.find(' ');
          known.insert(k.substr(0, sp));
        }
      }
    }
    ::mkdir((root + "/replays").c_str(), 0755);
    const std::string rd = root + "/replays/" + id;
    ::mkdir(rd.c_str(), 0755);
    std::map<std::string, std::vector<Violation>> byKey;
    for (const auto& v : viols) {
      byKey[v.key].push_back(v);
    }
    std::size_t nv = 0;
    std::size_t nk = 0;
    for (auto& [k, vs] : byKey) {
      auto best = vs.front();
      for (const auto& v : vs) {
        if (v.idx < best.idx) {
          best = v;
        }
      }
      if (known.count(k) != 0) {
        std::cout << "KNOWN-FINDING: property=" << id << " " << k << " "
                  << oneLine(best.msg) << "\n";
        ++nk;
        continue;
      }
      ++nv;
      if (nv > 25) {
        continue;
      }
      std::string fn = k;
      for (auto& c : fn) {
        if (isalnum(static_cast<unsigned char>(c)) == 0 && c != '-' &&
            c != '_') {
          c = '_';
        }
      }
      fn = rd + "/" + fn.substr(0, 80) + ".replay";
      std::ofstream o(fn);
      o << "property=" << id << "\nspace=" << best.space << "\nidx="
        << best.idx << "\ntier=" << (thorough ? "thorough" : "quick")
        << "\nkey=" << k << "\noccurrences=" << vs.size() << "\n"
        << "# re-run: python3 " << root << "/tools/check.py " << id
        << " --replay " << fn << "\n"
        << best.msg << "\n";
      std::cout << "VIOLATION property=" << id << " replay=" << fn << "\n";
      std::cout << "  key=" << k << " space=" << best.space
                << " idx=" << best.idx << " (x" << vs.size()
                << "): " << oneLine(best.msg).substr(0, 1500) << "\n";
    }
    writeEvidence(nv);
    cleanup();
    for (const auto& e : internalErrors) {
      std::cerr << "INTERNAL: " << e << "\n";
    }
    if (nv > 0) {
      return 1;
    }
    if (!internalErrors.empty()) {
      return 3;
    }
    std::uint64_t total = 0;
    for (const auto& s : stats) {
      total += s.cases;
    }
    if (total == 0) {
      std::cerr << "no cases explored\n";
      return 3;
    }
    std::cout << "OK property=" << id << " cases=" << total
              << " distinct_states=" << sh->distinct << " known=" << nk
              << "\n";
    return 0;
  }

private:
  Shared* sh = nullptr;
  std::uint64_t t0 = 0;
  std::string tmp;
  std::vector<SpaceStat> stats;
  std::vector<Violation> viols;
  std::vector<std::string> internalErrors;
  bool replayFailed = false;

  static std::string oneLine(std::string s) {
    for (auto& c : s) {
      if (c == '\n') {
        c = '|';
      }
    }
    return s;
  }
  std::string errFile(std::size_t w, int g, const std::string& n) const {
    return tmp + "/" + std::to_string(hashStr(n)) + "." + std::to_string(w) +
           "." + std::to_string(g) + ".err";
  }
  std::string vioFile(std::size_t w, const std::string& n) const {
    return tmp + "/" + std::to_string(hashStr(n)) + "." + std::to_string(w) +
           ".vio";
  }
  std::string describeCrash(std::size_t w, int g, const std::string& n) const {
    std::ifstream f(errFile(w, g, n));
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    const auto p = s.find("ERROR: AddressSanitizer");
    if (p != std::string::npos) {
      return s.substr(p, 800);
    }
    const auto q = s.find("runtime error");
    if (q != std::string::npos) {
      return s.substr(q > 200 ? q - 200 : 0, 600);
    }
    if (s.size() > 400) {
      s = s.substr(s.size() - 400);
    }
    return s;
  }
  template <class F>
  void oneCase(Ctx& c, F& f, std::uint64_t i, const std::string& name) {
    c.idx = i;
    c.fails.clear();
    try {
      f(i, c);
    } catch (const std::exception& e) {
      c.fail(name + ":exception", std::string("unexpected exception: ") + e.what());
    } catch (...) {
      c.fail(name + ":exception", "unexpected exception of unknown type");
    }
  }
  template <class F>
  void worker(std::size_t w, int g, const std::string& name,
              std::uint64_t size, std::uint64_t chunk, std::uint64_t from,
              std::uint64_t to, F& f) {
    const int fd = open(errFile(w, g, name).c_str(),
                        O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    struct rlimit rl {};
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(MC_ASAN)
    rl.rlim_cur = rl.rlim_max = rlimitAs;
    setrlimit(RLIMIT_AS, &rl);
#endif
    auto& s = sh->slot[w];
    std::vector<std::string> samples;
    Ctx c;
    c.s = &s;
    c.sh = sh;
    c.thorough = thorough;
    if (g == 0 && w == 0) {
      c.samples = &samples;
    }
    std::FILE* vf = nullptr;
    std::map<std::string, int> perKey;
    auto run = [&](std::uint64_t b, std::uint64_t e) {
      s.chunkEnd = e;
      for (std::uint64_t i = b; i < e; ++i) {
        if (sh->stop != 0) {
          return;
        }
        s.cur = i;
        s.start = cpuMs();
        s.busy = 1;
        oneCase(c, f, i, name);
        s.busy = 0;
        s.cases.fetch_add(1, std::memory_order_relaxed);
        for (const auto& [k, m] : c.fails) {
          if (++perKey[k] > 20) {
            continue;
          }
          if (vf == nullptr) {
            vf = std::fopen(vioFile(w, name).c_str(), "a");
          }
          std::fprintf(vf, "%" PRIu64 "\t%s\t%s\n", i, esc(k).c_str(),
                       esc(m.substr(0, 4000)).c_str());
          std::fflush(vf);
          if (++sh->nviol > 3000) {
            sh->stop = 1;
          }
        }
      }
    };
    if (to > from) {
      run(from, to);
    }
    for (;;) {
      if (sh->stop != 0) {
        break;
      }
      const auto b = sh->next.fetch_add(chunk);
      if (b >= size) {
        break;
      }
      run(b, std::min(size, b + chunk));
    }
    if (!samples.empty()) {
      std::ofstream o(tmp + "/samples." + std::to_string(hashStr(name)));
      for (const auto& x : samples) {
        o << esc(x) << "\n";
      }
    }
  }
  static std::string esc(const std::string& s) {
    std::string r;
    for (const char c : s) {
      if (c == '\t') {
        r += "\\t";
      } else if (c == '\n') {
        r += "\\n";
      } else if (c == '\\') {
        r += "\\\\";
      } else {
        r += c;
      }
    }
    return r;
  }
  static std::string unesc(const std::string& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '\\' && i + 1 < s.size()) {
        ++i;
        r += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i];
      } else {
        r += s[i];
      }
    }
    return r;
  }
  void collect(const std::string& name) {
    for (std::size_t w = 0; w < MAXW; ++w) {
      std::ifstream f(vioFile(w, name));
      std::string l;
      while (std::getline(f, l)) {
        const auto a = l.find('\t');
        const auto b = l.find('\t', a + 1);
        if (a == std::string::npos || b == std::string::npos) {
          continue;
        }
        Violation v;
        v.space = name;
        v.idx = std::strtoull(l.c_str(), nullptr, 10);
        v.key = unesc(l.substr(a + 1, b - a - 1));
        v.msg = unesc(l.substr(b + 1));
        viols.push_back(v);
      }
    }
    std::ifstream f(tmp + "/samples." + std::to_string(hashStr(name)));
    std::string l;
    while (std::getline(f, l)) {
      samplesOut.push_back(name + ": " + unesc(l));
    }
  }
  template <class F> void runReplay(const std::string& name, F& f) {
    std::cout << "replaying space=" << name << " idx=" << replayIdx << "\n"
              << std::flush;
    const pid_t p = fork();
    if (p == 0) {
      Slot& s = sh->slot[0];
      Ctx c;
      c.s = &s;
      c.sh = sh;
      c.thorough = thorough;
      c.replay = true;
      std::vector<std::string> samples;
      c.samples = &samples;
      alarm(60);
      oneCase(c, f, replayIdx, name);
      for (const auto& x : samples) {
        std::cout << "case: " << x << "\n";
      }
      for (const auto& [k, m] : c.fails) {
        std::cout << "FAIL key=" << k << "\n" << m << "\n";
      }
      std::cout << std::flush;
      _exit(c.fails.empty() ? 0 : 1);
    }
    int status = 0;
    waitpid(p, &status, 0);
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
      replayFailed = true;
      if (WIFSIGNALED(status)) {
        std::cout << "died: " << strsignal(WTERMSIG(status)) << "\n";
      }
    } else {
      std::cout << "replay: no violation\n";
    }
  }
  void writeEvidence(std::size_t nv) {
    ::mkdir((root + "/evidence").c_str(), 0755);
    std::ofstream o(root + "/evidence/" + id + ".json");
    std::uint64_t cases = 0;
    std::uint64_t tr = 0;
    std::uint64_t ck = 0;
    std::uint64_t sk = 0;
    bool ex = true;
    for (const auto& s : stats) {
      cases += s.cases;
      tr += s.trans;
      ck += s.checks;
      sk += s.skipped;
      ex = ex && s.complete;
    }
    o << "{\n \"property\": \"" << id << "\",\n \"tier\": \""
      << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
      << "  \"states\": " << sh->distinct << ",\n  \"transitions\": " << tr
      << ",\n  \"traces_validated_against_impl\": " << (cases - sk)
      << ",\n  \"comparisons_with_reference\": " << ck
      << ",\n  \"cases_outside_the_property\": " << sk
      << ",\n  \"exhaustive\": " << (ex ? "true" : "false")
      << ",\n  \"rule\": \"every index of every space below is executed on the "
         "code built from /repo and compared with the reference model; states "
         "are distinct reference-model states (hash-counted), transitions are "
         "operations applied\",\n  \"spaces\": [\n";
    for (std::size_t i = 0; i < stats.size(); ++i) {
      const auto& s = stats[i];
      o << "   {\"name\": \"" << jsonEsc(s.name) << "\", \"bounds\": \""
        << jsonEsc(s.bounds) << "\", \"size\": " << s.size
        << ", \"executed\": " << s.cases << ", \"skipped\": " << s.skipped
        << ", \"complete\": " << (s.complete ? "true" : "false")
        << ", \"wall_s\": " << s.wall << "}"
        << (i + 1 < stats.size() ? "," : "") << "\n";
    }
    o << "  ],\n  \"samples\": [";
    for (std::size_t i = 0; i < samplesOut.size() && i < 24; ++i) {
      o << (i != 0 ? ",\n   " : "\n   ") << "\""
        << jsonEsc(samplesOut[i].substr(0, 600)) << "\"";
    }
    o << "\n  ]\n },\n \"assumptions\": [";
    for (std::size_t i = 0; i < assumptions.size(); ++i) {
      o << (i != 0 ? ", " : "") << "\"" << jsonEsc(assumptions[i]) << "\"";
    }
    o << "],\n \"violations\": " << nv
      << ",\n \"wall_s\": " << static_cast<double>(nowMs() - t0) / 1000.
      << "\n}\n";
  }
  void cleanup() const {
    const std::string c = "rm -rf -- " + tmp;
    if (tmp.rfind("/tmp/mc_", 0) == 0) {
      [[maybe_unused]] const int r = std::system(c.c_str());
    }
  }
};

// number of sequences of length minL..maxL over an alphabet of size a
inline std::uint64_t seqCount(std::uint64_t a, std::size_t maxL,
                              std::size_t minL = 0) {
  std::uint64_t t = 0;
  std::uint64_t p = 1;
  for (std::size_t l = 0; l <= maxL; ++l) {
    if (l >= minL) {
      t += p;
    }
    p *= a;
  }
  return t;
}
inline std::vector<std::uint32_t> seqAt(std::uint64_t idx, std::uint64_t a,
                                        std::size_t minL = 0) {
  std::uint64_t p = 1;
  for (std::size_t l = 0; l < minL; ++l) {
    p *= a;
  }
  std::size_t l = minL;
  while (idx >= p) {
    idx -= p;
    p *= a;
    ++l;
  }
  std::vector<std::uint32_t> r(l);
  for (std::size_t i = l; i > 0; --i) {
    r[i - 1] = static_cast<std::uint32_t>(idx % a);
    idx /= a;
  }
  return r;
}
// mixed radix digit extraction
struct Digits {
  std::uint64_t v;
  explicit Digits(std::uint64_t x) : v(x) {}
  std::uint64_t take(std::uint64_t n) {
    const auto r = v % n;
    v /= n;
    return r;
  }
};
} // namespace mc
