// Common part of the explorers: complete enumeration of a bounded space of
// cases (histories, inputs, schedules), divided over processes, with every case
// addressable by its number so that it can be replayed alone.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <limits>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Fail {
  std::string sig; ///< what kind of thing failed
  std::string msg;
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i)
    h = (h ^ c[i]) * 1099511628211ull;
  h ^= h >> 29;
  return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  return hash_bytes(s.data(), s.size(), h);
}
inline uint64_t hash_mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  return a ^ (a >> 33);
}

struct Shared {
  volatile long current;   // case being executed, -1 if none
  volatile long done;      // cases executed
  volatile long seq;       // increases with every case
};

class Explorer {
public:
  // configuration
  bool thorough = false;
  long shard = 0, nshard = 1;
  long only = -1;       // run just this case
  long skip_until = -1; // resume after this case
  std::string prop;
  Shared *sh = nullptr;

  // counters
  long next = 0;
  long cases = 0, nontrivial_cases = 0, transitions = 0, checks = 0, traces = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::map<std::string, long> tally;
  std::vector<std::string> samples;
  struct Violation {
    long id;
    std::string sig, msg, desc;
    long count;
  };
  std::map<std::string, Violation> violations;
  bool verbose = false;

  // within a case
  bool cur_nontrivial = false;
  long tick = 0; // free use within a case

  /// Whether the case with the next number is to be executed here. Advances.
  bool take() {
    const long id = next++;
    if (only >= 0)
      return id == only;
    if (id <= skip_until)
      return false;
    return id % nshard == shard;
  }
  /// For skipping whole subtrees cheaply: number of the next case.
  template <class D, class F> void run(D &&desc, F &&body) {
    if (!take())
      return;
    const long id = next - 1;
    run_taken(id, desc, body);
  }
  template <class D, class F> void run_taken(long id, D &&desc, F &&body) {
    if (sh) {
      sh->current = id;
      sh->seq = sh->seq + 1;
    }
    cur_nontrivial = false;
    notes.clear();
    tick = 0;
    if (verbose)
      std::cerr << "case " << id << ": " << describe(desc) << std::endl;
    try {
      body();
    } catch (const Fail &f) {
      add_violation(id, f.sig, f.msg, describe(desc));
    } catch (const std::exception &e) {
      add_violation(id, std::string("exception"),
                    std::string("unexpected exception ") + e.what(), describe(desc));
    } catch (...) {
      add_violation(id, "exception", "unexpected exception of unknown type",
                    describe(desc));
    }
    for (const auto &[sig, msg] : notes)
      add_violation(id, sig, msg, describe(desc));
    ++cases;
    ++traces;
    nontrivial_cases += cur_nontrivial;
    if (samples.size() < 3 && cur_nontrivial && ((id / nshard) % 37 == 5 || only >= 0))
      samples.push_back(describe(desc));
    if (sh) {
      sh->current = -1;
      sh->done = cases;
    }
  }
  void add_violation(long id, const std::string &sig, const std::string &msg,
                     const std::string &desc) {
    if (verbose)
      std::cerr << "VIOLATED case " << id << " [" << sig << "] " << msg << "\n  in: "
                << desc << std::endl;
    auto it = violations.find(sig);
    if (it == violations.end())
      violations.emplace(sig, Violation{id, sig, msg, desc, 1});
    else
      ++it->second.count;
  }
  void check(bool ok, const std::string &sig, const std::string &msg = "") {
    ++checks;
    if (!ok)
      throw Fail{sig, msg.empty() ? sig : msg};
  }
  template <class M> void check_lazy(bool ok, const char *sig, M &&msg) {
    ++checks;
    if (!ok)
      throw Fail{sig, msg()};
  }
  /// A violation that does not keep the rest of the case from being explored.
  void note(const std::string &sig, const std::string &msg) { notes.emplace(sig, msg); }
  std::map<std::string, std::string> notes;
  void nontrivial() { cur_nontrivial = true; }
  void state(uint64_t h) { states.insert(h); }
  void outcome(uint64_t h) { outcomes.insert(h); }
  void count(const std::string &what) { ++tally[what]; }

private:
  template <class D> static std::string describe(D &&desc) {
    if constexpr (std::is_convertible_v<D, std::string>)
      return desc;
    else if constexpr (std::is_invocable_r_v<std::string, D>)
      return desc();
    else {
      std::ostringstream os;
      desc(os);
      return os.str();
    }
  }
};

inline Explorer *E = nullptr;

inline std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      (o += '\\') += c;
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

using ExploreFn = void (*)(Explorer &);
inline std::map<std::string, ExploreFn> &registry() {
  static std::map<std::string, ExploreFn> r;
  return r;
}
struct Register {
  Register(const std::string &prop, ExploreFn f) { registry()[prop] = f; }
};
#define VH_EXPLORE(PROP)                                                       \
  static void explore_##PROP(vh::Explorer &);                                  \
  static vh::Register register_##PROP(#PROP, explore_##PROP);                  \
  static void explore_##PROP(vh::Explorer &E)

inline void dump_u64(std::ofstream &o, const std::unordered_set<uint64_t> &s) {
  const uint64_t n = s.size();
  o.write(reinterpret_cast<const char *>(&n), 8);
  for (const auto x : s)
    o.write(reinterpret_cast<const char *>(&x), 8);
}
inline void load_u64(std::ifstream &i, std::unordered_set<uint64_t> &s) {
  uint64_t n = 0, x;
  i.read(reinterpret_cast<char *>(&n), 8);
  for (uint64_t k = 0; k < n; ++k) {
    i.read(reinterpret_cast<char *>(&x), 8);
    s.insert(x);
  }
}
inline void dump_s(std::ofstream &o, const std::string &s) {
  const uint64_t n = s.size();
  o.write(reinterpret_cast<const char *>(&n), 8);
  o.write(s.data(), n);
}
inline std::string load_s(std::ifstream &i) {
  uint64_t n = 0;
  i.read(reinterpret_cast<char *>(&n), 8);
  std::string s(n, 0);
  i.read(s.data(), n);
  return s;
}
inline void dump(const Explorer &e, const std::string &file) {
  std::ofstream o(file + ".tmp", std::ios::binary);
  for (long v : {e.next, e.cases, e.nontrivial_cases, e.transitions, e.checks, e.traces})
    o.write(reinterpret_cast<const char *>(&v), 8);
  dump_u64(o, e.states);
  dump_u64(o, e.outcomes);
  long n = e.tally.size();
  o.write(reinterpret_cast<const char *>(&n), 8);
  for (const auto &[k, v] : e.tally) {
    dump_s(o, k);
    o.write(reinterpret_cast<const char *>(&v), 8);
  }
  n = e.samples.size();
  o.write(reinterpret_cast<const char *>(&n), 8);
  for (const auto &s : e.samples)
    dump_s(o, s);
  n = e.violations.size();
  o.write(reinterpret_cast<const char *>(&n), 8);
  for (const auto &[k, v] : e.violations) {
    dump_s(o, v.sig);
    dump_s(o, v.msg);
    dump_s(o, v.desc);
    o.write(reinterpret_cast<const char *>(&v.id), 8);
    o.write(reinterpret_cast<const char *>(&v.count), 8);
  }
  o.close();
  rename((file + ".tmp").c_str(), file.c_str());
}
inline void merge(Explorer &e, const std::string &file) {
  std::ifstream i(file, std::ios::binary);
  if (!i)
    return;
  long v[6];
  i.read(reinterpret_cast<char *>(v), 48);
  e.next = std::max(e.next, v[0]);
  e.cases += v[1];
  e.nontrivial_cases += v[2];
  e.transitions += v[3];
  e.checks += v[4];
  e.traces += v[5];
  load_u64(i, e.states);
  load_u64(i, e.outcomes);
  long n = 0;
  i.read(reinterpret_cast<char *>(&n), 8);
  for (long k = 0; k < n; ++k) {
    const auto s = load_s(i);
    long c;
    i.read(reinterpret_cast<char *>(&c), 8);
    e.tally[s] += c;
  }
  i.read(reinterpret_cast<char *>(&n), 8);
  for (long k = 0; k < n; ++k) {
    auto s = load_s(i);
    if (e.samples.size() < 5)
      e.samples.push_back(s);
  }
  i.read(reinterpret_cast<char *>(&n), 8);
  for (long k = 0; k < n; ++k) {
    Explorer::Violation x;
    x.sig = load_s(i);
    x.msg = load_s(i);
    x.desc = load_s(i);
    i.read(reinterpret_cast<char *>(&x.id), 8);
    i.read(reinterpret_cast<char *>(&x.count), 8);
    auto it = e.violations.find(x.sig);
    if (it == e.violations.end())
      e.violations.emplace(x.sig, x);
    else {
      const long c = it->second.count + x.count;
      if (x.id < it->second.id)
        it->second = x;
      it->second.count = c;
    }
  }
}
inline void write_json(const Explorer &e, std::ostream &o) {
  o << "{\"enumerated\":" << e.next << ",\"cases\":" << e.cases
    << ",\"nontrivial\":" << e.nontrivial_cases << ",\"transitions\":" << e.transitions
    << ",\"checks\":" << e.checks << ",\"traces\":" << e.traces
    << ",\"states\":" << e.states.size() << ",\"outcomes\":" << e.outcomes.size()
    << ",\"tally\":{";
  bool first = true;
  for (const auto &[k, v] : e.tally) {
    o << (first ? "" : ",") << json_str(k) << ":" << v;
    first = false;
  }
  o << "},\"samples\":[";
  for (size_t k = 0; k < e.samples.size(); ++k)
    o << (k ? "," : "") << json_str(e.samples[k]);
  o << "],\"violations\":[";
  first = true;
  for (const auto &[k, v] : e.violations) {
    o << (first ? "" : ",") << "{\"id\":" << v.id << ",\"sig\":" << json_str(v.sig)
      << ",\"msg\":" << json_str(v.msg) << ",\"desc\":" << json_str(v.desc)
      << ",\"count\":" << v.count << "}";
    first = false;
  }
  o << "]}\n";
}

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

/// exe --prop P --tier T --jobs N --out F --scratch D [--case-limit S]
/// exe --prop P --tier T --only ID [--verbose]
inline int main(int argc, char **argv) {
  std::string prop, tier = "quick", out, scratch = "/tmp";
  long jobs = 8, only = -1;
  double case_limit = 120;
  bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--jobs") jobs = std::stol(val());
    else if (a == "--out") out = val();
    else if (a == "--scratch") scratch = val();
    else if (a == "--only") only = std::stol(val());
    else if (a == "--case-limit") case_limit = std::stod(val());
    else if (a == "--verbose") verbose = true;
  }
  if (registry().count(prop) == 0) {
    std::cerr << "unknown property " << prop << "\n";
    return 2;
  }
  const auto fn = registry()[prop];
  auto setup = [&](Explorer &e) {
    e.prop = prop;
    e.thorough = tier == "thorough";
    e.verbose = verbose;
    E = &e;
  };
  if (only >= 0) {
    Explorer e;
    setup(e);
    e.only = only;
    e.verbose = true;
    fn(e);
    if (e.cases == 0)
      return 4; // no such case
    write_json(e, std::cout);
    return e.violations.empty() ? 0 : 1;
  }
  auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct Child {
    pid_t pid = -1;
    long skip = -1;
    int round = 0;
    long seq = -1;
    double since = 0;
    int crashes = 0;
  };
  std::vector<Child> ch(jobs);
  std::vector<std::string> files;
  Explorer total;
  total.prop = prop;
  auto start = [&](long k) {
    auto &c = ch[k];
    sh[k].current = -1;
    const std::string f = scratch + "/part" + std::to_string(k) + "." + std::to_string(c.round++);
    files.push_back(f);
    const pid_t p = fork();
    if (p == 0) {
      Explorer e;
      setup(e);
      e.shard = k;
      e.nshard = jobs;
      e.skip_until = c.skip;
      e.sh = &sh[k];
      try {
        fn(e);
      } catch (const std::exception &ex) {
        std::cerr << "explorer failed outside a case: " << ex.what() << "\n";
        _exit(77);
      } catch (const Fail &f) {
        std::cerr << "explorer failed outside a case: " << f.sig << " " << f.msg << "\n";
        _exit(77);
      }
      dump(e, f);
      _exit(0);
    }
    c.pid = p;
    c.seq = -1;
    c.since = now();
  };
  for (long k = 0; k < jobs; ++k)
    start(k);
  long running = jobs;
  int broken = 0;
  while (running > 0) {
    int status = 0;
    const pid_t p = waitpid(-1, &status, WNOHANG);
    if (p > 0) {
      for (long k = 0; k < jobs; ++k) {
        auto &c = ch[k];
        if (c.pid != p)
          continue;
        c.pid = -1;
        --running;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
          break;
        const long cur = sh[k].current;
        if (cur < 0 || (WIFEXITED(status) && WEXITSTATUS(status) == 77)) {
          std::cerr << "shard " << k << " ended outside a case, status " << status << "\n";
          broken = 1;
          break;
        }
        total.add_violation(cur, "crash", "the process ended in this case, status " + std::to_string(status), "");
        total.cases += 1;
        if (++c.crashes < 3) {
          c.skip = cur;
          ++running;
          start(k);
        }
        break;
      }
      continue;
    }
    usleep(20000);
    for (long k = 0; k < jobs; ++k) {
      auto &c = ch[k];
      if (c.pid < 0)
        continue;
      const long s = sh[k].seq;
      if (s != c.seq) {
        c.seq = s;
        c.since = now();
      } else if (sh[k].current >= 0 && now() - c.since > case_limit) {
        kill(c.pid, SIGKILL);
        c.since = now();
      }
    }
  }
  for (const auto &f : files) {
    merge(total, f);
    unlink(f.c_str());
  }
  if (out.empty())
    write_json(total, std::cout);
  else {
    std::ofstream o(out);
    write_json(total, o);
  }
  if (broken)
    return 3;
  return total.violations.empty() ? 0 : 1;
}

} // namespace vh

#define VH_MAIN                                                                \
  int main(int argc, char **argv) { return vh::main(argc, argv); }
