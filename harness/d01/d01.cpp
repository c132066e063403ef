// D01: labels stay a bijection under concurrent creation.
//
// Every program of a few threads with a few operations each on the real label
// registry is run under every interleaving of its synchronisation operations
// (see sched.h), each execution in a process of its own so that all start from
// the same registry. In addition every sequential history of label operations
// to a bound, and the exhaustion of the label space.
#include "sched.h"
#include "vh.h"
#include "scipp/units/dim.h"
#include <functional>

using scipp::units::Dim;

namespace {
struct Op {
  char kind; // C: create label `name`; N: name of the label created last by this thread
             // (or of the existing one); E: compare with the existing one
  std::string name;
};
std::string show(const Op &o) { return o.kind == 'C' ? "create(" + o.name + ")" : std::string(1, o.kind); }
using Program = std::vector<std::vector<Op>>;
std::string show(const Program &p) {
  std::string s;
  for (const auto &t : p) {
    s += "[";
    for (const auto &o : t)
      s += show(o) + " ";
    s += "] ";
  }
  return s;
}

const std::string Existing = "some existing label, longer than the small buffer";

struct Slot { // shared with the child that runs one execution
  int ok;
  int redundant;
  int n;
  sched::Point points[4096];
  char what[1024];
  char outcome[1024];
};
Slot *slot = nullptr;

/// Checks that hold after any history of creations with the given names.
std::string verify(const std::vector<std::pair<std::string, Dim>> &made) {
  auto all = made;
  all.emplace_back(Existing, Dim(Existing));
  all.emplace_back("x", Dim(Dim::X));
  all.emplace_back("time", Dim(Dim::Time));
  all.emplace_back("fresh", Dim("fresh"));
  all.emplace_back("another fresh label, with a very long name", Dim("another fresh label, with a very long name"));
  for (const auto &[n, d] : all) {
    if (d.name() != n)
      return "the label created as '" + n + "' now reports '" + d.name() + "'";
    if (Dim(n) != d)
      return "creating '" + n + "' again gives a different label";
  }
  for (const auto &a : all)
    for (const auto &b : all)
      if ((a.first == b.first) != (a.second == b.second))
        return "labels '" + a.first + "' and '" + b.first + "' compare wrongly";
  return "";
}

void execute(const Program &prog, const std::vector<int> &prefix, unsigned sleep) {
  const Dim existing(Existing);
  std::vector<std::vector<std::pair<std::string, Dim>>> made(prog.size());
  for (auto &m : made)
    m.reserve(8);
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < prog.size(); ++t)
    bodies.emplace_back([&, t] {
      std::pair<std::string, Dim> last{Existing, existing};
      for (const auto &op : prog[t]) {
        if (op.kind == 'C') {
          last = {op.name, Dim(op.name)};
          made[t].push_back(last);
        } else if (op.kind == 'N') {
          const auto n = last.second.name();
          if (n != last.first)
            sched::fail("the label created as '" + last.first + "' reports '" + n + "'");
        }
      }
    });
  auto r = sched::run(bodies, prefix, sleep);
  slot->n = std::min(int(r.points.size()), 4096);
  std::copy(r.points.begin(), r.points.begin() + slot->n, slot->points);
  slot->redundant = r.redundant;
  std::string what = r.what;
  std::string outcome;
  if (r.ok && !r.redundant) {
    std::vector<std::pair<std::string, Dim>> all;
    for (auto &m : made)
      for (auto &x : m)
        all.push_back(x);
    for (auto &x : all)
      outcome += x.first + "=" + std::to_string(int(x.second.id())) + ";";
    what = verify(all);
  }
  slot->ok = what.empty();
  snprintf(slot->what, sizeof slot->what, "%s", what.c_str());
  snprintf(slot->outcome, sizeof slot->outcome, "%s", outcome.c_str());
}

void run_in_child(const std::function<void()> &f) {
  slot->ok = 0;
  slot->n = 0;
  slot->redundant = 0;
  strcpy(slot->what, "the execution did not come to an end");
  const pid_t p = fork();
  if (p == 0) {
    alarm(20);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    slot->ok = 0;
    snprintf(slot->what, sizeof slot->what, "the execution ended with status %d", st);
  }
}

/// Dynamic partial-order reduction (Flanagan, Godefroid 2005) with sleep sets.
struct Node {
  sched::Point p;
  unsigned backtrack = 0, done = 0, sleep = 0;
};

void explore_program(vh::Explorer &E, const Program &prog) {
  std::vector<Node> stack;
  std::vector<int> prefix;
  unsigned sleep = 0;
  long n = 0, redundant = 0;
  std::set<std::string> outs;
  while (true) {
    run_in_child([&] { execute(prog, prefix, sleep); });
    std::string sch;
    for (int i = 0; i < slot->n; ++i)
      sch += std::to_string(slot->points[i].chosen);
    if (slot->redundant)
      ++redundant;
    else {
      ++n;
      E.check(slot->ok, std::string(slot->what).substr(0, 9) == "data race" ? "race" : "bijection",
              std::string(slot->what) + " [schedule " + sch + "]");
      outs.insert(slot->outcome);
      E.outcome(vh::hash_str(slot->outcome));
    }
    E.transitions += slot->n - long(prefix.size());
    // nodes below the prefix
    stack.resize(prefix.size());
    if (!stack.empty()) {
      auto &l = stack.back();
      if (l.p.enabled != slot->points[stack.size() - 1].enabled)
        throw vh::Fail{"harness", "the execution diverged on replay"};
      l.p.chosen = slot->points[stack.size() - 1].chosen;
    }
    for (int i = int(stack.size()); i < slot->n; ++i) {
      Node x;
      x.p = slot->points[i];
      x.backtrack = 1u << x.p.chosen;
      if (i > 0) {
        const auto &q = stack[i - 1];
        for (int t = 0; t < sched::MaxT; ++t)
          if (((q.sleep | q.done) >> t & 1) && t != q.p.chosen &&
              !sched::dependent(q.p.pending[t], q.p.pending[q.p.chosen]))
            x.sleep |= 1u << t;
      }
      stack.push_back(x);
      uint64_t h = vh::hash_str(show(prog));
      for (int k = 0; k <= i; ++k)
        h = vh::hash_mix(h, slot->points[k].chosen);
      E.state(h);
    }
    // races: dependent, concurrent operations
    const int len = int(stack.size());
    std::vector<std::vector<int>> vc(len, std::vector<int>(sched::MaxT, -1));
    std::vector<int> last(sched::MaxT, -1);
    for (int j = 0; j < len; ++j) {
      const auto &pj = stack[j].p;
      const int t = pj.chosen;
      std::vector<int> c(sched::MaxT, -1);
      if (last[t] >= 0)
        c = vc[last[t]];
      const auto before = c;
      for (int i = 0; i < j; ++i) {
        const auto &pi = stack[i].p;
        const int u = pi.chosen;
        if (u == t || !sched::dependent(pi.pending[u], pj.pending[t]))
          continue;
        for (int k = 0; k < sched::MaxT; ++k)
          c[k] = std::max(c[k], vc[i][k]);
        if (before[u] >= i) // ordered already
          continue;
        if (pi.enabled >> t & 1)
          stack[i].backtrack |= 1u << t;
        else
          stack[i].backtrack |= pi.enabled;
      }
      c[t] = j;
      vc[j] = c;
      last[t] = j;
    }
    // next
    while (!stack.empty()) {
      auto &x = stack.back();
      x.done |= 1u << x.p.chosen;
      const unsigned cand = x.backtrack & ~x.done & ~x.sleep & x.p.enabled;
      if (cand)
        break;
      stack.pop_back();
    }
    if (stack.empty())
      break;
    auto &x = stack.back();
    const unsigned cand = x.backtrack & ~x.done & ~x.sleep & x.p.enabled;
    const int t = __builtin_ctz(cand);
    x.p.chosen = t;
    prefix.clear();
    for (auto &y : stack)
      prefix.push_back(y.p.chosen);
    sleep = 0;
    for (int u = 0; u < sched::MaxT; ++u)
      if (((x.sleep | x.done) >> u & 1) && u != t &&
          !sched::dependent(x.p.pending[u], x.p.pending[t]))
        sleep |= 1u << u;
  }
  E.tally["executions"] += n;
  E.tally["executions cut as redundant"] += redundant;
  E.traces += n;
  if (n > 1)
    E.nontrivial();
  if (outs.size() > 1)
    E.count("programs with several outcomes");
}

void sequences(const std::vector<Op> &alphabet, int len, std::vector<std::vector<Op>> &out) {
  std::vector<std::vector<Op>> cur{{}};
  for (int i = 0; i < len; ++i) {
    std::vector<std::vector<Op>> nxt;
    for (auto &c : cur)
      for (auto &a : alphabet) {
        auto d = c;
        d.push_back(a);
        nxt.push_back(d);
        out.push_back(d);
      }
    cur = nxt;
  }
}
} // namespace

VH_EXPLORE(D01) {
  slot = static_cast<Slot *>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  // Two threads.
  {
    std::vector<Op> alpha{{'C', "a"}, {'C', "b"}, {'N', ""}, {'C', Existing}, {'C', "x"}};
    std::vector<std::vector<Op>> seqs;
    sequences(alpha, 2, seqs);
    {
      std::vector<std::vector<Op>> more;
      sequences(E.thorough ? alpha : std::vector<Op>{{'C', "a"}, {'C', "b"}, {'N', ""}}, 3, more);
      for (auto &m : more)
        if (m.size() == 3)
          seqs.push_back(m);
    }
    for (size_t i = 0; i < seqs.size(); ++i)
      for (size_t j = i; j < seqs.size(); ++j) {
        const Program p{seqs[i], seqs[j]};
        E.run([&] { return "2 threads " + show(p); }, [&] { explore_program(E, p); });
      }
  }
  // Three threads.
  {
    std::vector<Op> alpha{{'C', "a"}, {'C', "b"}, {'N', ""}, {'C', Existing}};
    std::vector<std::vector<Op>> seqs;
    sequences(alpha, 1, seqs);
    seqs.push_back({{'C', "a"}, {'N', ""}});
    if (E.thorough) {
      seqs.clear();
      sequences(alpha, 2, seqs);
    } else {
      seqs.push_back({{'C', "b"}, {'N', ""}});
      seqs.push_back({{'C', "b"}, {'C', "a"}});
      seqs.push_back({{'C', "a"}, {'C', "b"}});
    }
    for (size_t i = 0; i < seqs.size(); ++i)
      for (size_t j = i; j < seqs.size(); ++j)
        for (size_t k = j; k < seqs.size(); ++k) {
          const Program p{seqs[i], seqs[j], seqs[k]};
          E.run([&] { return "3 threads " + show(p); }, [&] { explore_program(E, p); });
        }
  }
  // Four threads.
  {
    const std::vector<Op> alpha{{'C', "a"}, {'C', "b"}, {'N', ""}, {'C', Existing}};
    std::vector<std::vector<Op>> seqs;
    sequences(alpha, 1, seqs);
    const size_t n = E.thorough ? 4 : 2;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = i; j < n; ++j)
        for (size_t k = j; k < n; ++k)
          for (size_t l = k; l < n; ++l) {
            const Program p{seqs[i], seqs[j], seqs[k], seqs[l]};
            E.run([&] { return "4 threads " + show(p); }, [&] { explore_program(E, p); });
          }
  }
  // Sequential histories, with all kinds of names.
  {
    const std::vector<std::string> names{"", "a", "b", std::string(15, 'c'), std::string(16, 'c'),
                                         std::string("nul\0nul", 7), "<none>", "x", "unreachable", "X"};
    const size_t n = names.size();
    const int depth = E.thorough ? 5 : 4;
    size_t total = 1;
    for (int i = 0; i < depth; ++i)
      total *= n;
    for (size_t c = 0; c < total; ++c)
      E.run([&](std::ostream &o) { o << "sequential history " << c; },
            [&] {
              run_in_child([&] {
                std::vector<std::pair<std::string, Dim>> made;
                size_t k = c;
                std::string what;
                for (int i = 0; i < depth; ++i, k /= n) {
                  made.emplace_back(names[k % n], Dim(names[k % n]));
                  if (made.back().second.name() != names[k % n])
                    what = "wrong name";
                }
                if (what.empty())
                  what = verify(made);
                slot->ok = what.empty();
                snprintf(slot->what, sizeof slot->what, "%s", what.c_str());
              });
              E.transitions += depth;
              E.state(vh::hash_mix(77, c));
              E.nontrivial();
              E.check(slot->ok, "bijection", slot->what);
            });
  }
  // Built-in labels.
  for (int id = 0; id < 1000; ++id)
    E.run([&](std::ostream &o) { o << "built-in label " << id; },
          [&] {
            const auto d = Dim(static_cast<Dim::Id>(id));
            static const std::map<std::string, Dim::Id> doc{
                {"energy", Dim::Energy}, {"event", Dim::Event}, {"group", Dim::Group},
                {"position", Dim::Position}, {"row", Dim::Row}, {"temperature", Dim::Temperature},
                {"time", Dim::Time}, {"wavelength", Dim::Wavelength}, {"x", Dim::X},
                {"y", Dim::Y}, {"z", Dim::Z}, {"<invalid>", Dim::Invalid}, {"<none>", Dim::None}};
            ++E.transitions;
            for (const auto &[n, i] : doc)
              if (int(i) == id) {
                E.nontrivial();
                E.check(d.name() == n, "builtin", "built-in label has name " + d.name() + ", not " + n);
                E.check(Dim(n) == d, "builtin", "the name " + n + " gives another label");
              }
            for (const auto i :
                 {Dim::Invalid, Dim::None, Dim::InternalStructureComponent,
                  Dim::InternalStructureRow, Dim::InternalStructureColumn,
                  Dim::InternalHistogram, Dim::InternalSort, Dim::InternalAccumulate,
                  Dim::InternalBinCoarse, Dim::InternalBinFine, Dim::InternalSubbin})
              if (int(i) == id) {
                E.nontrivial();
                E.check(Dim(d.name()) == d, "builtin-name",
                        "the name '" + d.name() + "' of built-in label " + std::to_string(id) +
                            " gives another label");
              }
          });
  // Exhaustion of the label space.
  for (int variant = 0; variant < 2; ++variant)
    E.run([&](std::ostream &o) { o << "exhaustion of the label space " << variant; },
          [&] {
            E.nontrivial();
            run_in_child([&] {
              std::string what;
              auto nm = [&](long i) { return (variant ? "a long label name, number " : "d") + std::to_string(i); };
              std::vector<Dim> made;
              bool thrown = false;
              for (long i = 0; i < 70000 && !thrown; ++i) {
                try {
                  made.emplace_back(nm(i));
                } catch (const std::runtime_error &) {
                  thrown = true;
                }
              }
              if (!thrown)
                what = "more labels than identifiers";
              if (made.size() < 30000)
                what = "too few labels possible";
              std::set<long> ids;
              for (auto &d : made)
                ids.insert(long(d.id()));
              if (ids.size() != made.size())
                what = "two labels with the same identifier";
              if (!ids.empty() && *ids.begin() < 1000)
                what = "identifier of a built-in label";
              for (size_t i = 0; i < made.size() && what.empty(); ++i)
                if (Dim(nm(i)) != made[i])
                  what = "label changed after exhaustion";
              for (size_t i = 0; i < made.size() && what.empty(); i += 997)
                if (made[i].name() != nm(i))
                  what = "name changed after exhaustion: " + nm(i) + " " + made[i].name();
              try {
                Dim again("one more");
                what = "a label was created after exhaustion";
              } catch (const std::runtime_error &) {
              }
              slot->ok = what.empty();
              snprintf(slot->what, sizeof slot->what, "%s", what.c_str());
            });
            ++E.transitions;
            E.check(slot->ok, "exhaustion", slot->what);
          });
}
VH_MAIN
