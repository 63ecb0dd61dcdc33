// Small explicit model-checking engine used by every harness in this directory.
//
// Two exploration styles share one notion of an execution: a list of integer choices.
//
//  * Stateless scenarios (mc::dfs): a function draws every nondeterministic decision through
//    Ctx::choose(n); the engine runs it again and again until every sequence of choices was taken.
//  * Machines (mc::machine): breadth-first search over operation histories of a real object with
//    exact de-duplication on a canonical form of the object's memory (see track.hpp). A choice list
//    for a machine is op0, fault0, op1, fault1, ...
//
// Every execution runs in a forked worker; a crash (sanitizer report, assert, signal) or a hang is
// attributed to the choice list being executed and is confirmed by replaying it alone.
#ifndef MC_HPP_
#define MC_HPP_
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{

// ---------------------------------------------------------------- utilities
inline std::string vfmt(const char * f, va_list ap)
{
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap2);
  va_end(ap2);
  std::string s((size_t)(n < 0 ? 0 : n), '\0');
  if (n > 0) {vsnprintf(&s[0], (size_t)n + 1, f, ap);}
  return s;
}
__attribute__((format(printf, 1, 2)))
inline std::string fmt(const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}
// C-escaped quotation of arbitrary bytes, shortened in the middle when long
inline std::string q(const char * p, size_t n, size_t lim = 120)
{
  if (!p) {return "NULL";}
  std::string s = "\"";
  for (size_t i = 0; i < n; ++i) {
    if (n > lim && i == lim / 2) {
      s += fmt("...(%zu bytes)...", n - lim);
      i = n - lim / 2;
    }
    unsigned char c = (unsigned char)p[i];
    if (c == '\n') {s += "\\n";} else if (c == '"' || c == '\\') {s += '\\'; s += (char)c;} else if (
      c < 32 || c > 126) {s += fmt("\\x%02x", c);} else {s += (char)c;}
  }
  return s + "\"";
}
inline std::string q(const std::string & s) {return q(s.data(), s.size());}
inline std::string q(const char * s) {return s ? q(s, strlen(s)) : "NULL";}

inline std::string jstr(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += (char)c;} else if (c == '\n') {o += "\\n";} else if (
      c < 32 || c > 126) {o += fmt("\\u%04x", c);} else {o += (char)c;}
  }
  return o + "\"";
}
inline double now_s()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

struct H128
{
  uint64_t a, b;
  bool operator==(const H128 & o) const {return a == o.a && b == o.b;}
};
struct H128Hash {size_t operator()(const H128 & h) const {return (size_t)h.a;}};
struct Hasher
{
  uint64_t a = 0x9e3779b97f4a7c15ull, b = 0xc2b2ae3d27d4eb4full;
  void u64(uint64_t v)
  {
    a = (a ^ v) * 0xff51afd7ed558ccdull; a ^= a >> 29;
    b = (b + v) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 31; b += a;
  }
  void bytes(const void * p, size_t n)
  {
    const unsigned char * c = (const unsigned char *)p;
    u64(n);
    while (n >= 8) {uint64_t v; memcpy(&v, c, 8); u64(v); c += 8; n -= 8;}
    uint64_t v = 0;
    memcpy(&v, c, n);
    u64(v);
  }
  void str(const std::string & s) {bytes(s.data(), s.size());}
  H128 get() const
  {
    Hasher h = *this;
    h.u64(0x1234567);
    return H128{h.a, h.b};
  }
};
inline H128 hash_str(const std::string & s)
{
  Hasher h;
  h.str(s);
  return h.get();
}

// ---------------------------------------------------------------- failures
struct Violation {std::string key, msg;};
struct Prune {};
struct Divergence {std::string msg;};

[[noreturn]] __attribute__((format(printf, 2, 3)))
inline void fail(const char * key, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  throw Violation{key, s};
}
#define MC_CHECK(cond, key, ...) do {if (!(cond)) {::mc::fail(key, __VA_ARGS__);}} while (0)

// ---------------------------------------------------------------- shared progress
enum {MAX_CHOICES = 8192};
struct Slot
{
  volatile uint64_t beat;
  volatile int task;
  volatile int n;
  volatile int busy;
  int choices[MAX_CHOICES];
};

struct Config
{
  std::string prop;
  std::string out = "/tmp";      // scratch directory of this run
  bool thorough = false;
  int workers = 8;
  double deadline = 600;        // seconds for the whole run
  bool early_stop = true;
  double hang = 30;             // seconds without progress
  double t0 = 0;
};
inline Config & cfg() {static Config c; return c;}

// ---------------------------------------------------------------- one execution
struct Ctx
{
  struct Pt {int c; int n;};
  std::vector<Pt> path;         // decided prefix (then extended)
  size_t pos = 0;
  size_t fixed = 0;             // path[0..fixed) must be replayed exactly
  // sharding
  int shard = 0, nshards = 1, shard_depth = 0;
  bool pruning = true;
  bool verbose = false;
  std::vector<std::string> trace;
  Slot * slot = nullptr;
  std::unordered_set<H128, H128Hash> * states = nullptr;
  std::unordered_set<H128, H128Hash> * outcomes = nullptr;
  uint64_t steps = 0;
  Hasher run;                   // running hash of this execution's observations
  bool replay_only = false;

  int raw_choose(int n)
  {
    if (n <= 0) {throw Divergence{"choose(0)"};}
    int c;
    if (pos < path.size()) {
      if (path[pos].n != n && path[pos].n != -1) {
        throw Divergence{fmt("choice %zu had %d alternatives, now %d", pos, path[pos].n, n)};
      }
      if (path[pos].c >= n) {throw Divergence{fmt("choice %zu out of range", pos)};}
      path[pos].n = n;
      c = path[pos].c;
    } else {
      if (replay_only) {throw Divergence{"replayed execution asks for more choices"};}
      c = 0;
      path.push_back(Pt{0, n});
    }
    if (slot && pos < MAX_CHOICES) {
      slot->choices[pos] = c;
      slot->n = (int)pos + 1;
    }
    ++pos;
    return c;
  }
  // A decision of the driver: which operation, argument, length...
  int choose(int n, const char * label = nullptr)
  {
    int c = raw_choose(n);
    ++steps;
    if (verbose && label) {note("%s = %d of %d", label, c, n);}
    if (pruning && nshards > 1 && (int)pos == shard_depth) {
      Hasher h;
      for (size_t i = 0; i < pos; ++i) {h.u64((uint64_t)path[i].c);}
      if ((int)(h.get().a % (uint64_t)nshards) != shard) {throw Prune{};}
    }
    return c;
  }
  // A decision of the environment, safe to call below C frames (never prunes)
  int env(int n) {++steps; return raw_choose(n);}
  template<class T, size_t N>
  const T & pick(const T (&arr)[N]) {return arr[choose((int)N)];}
  template<class T>
  const T & pick(const std::vector<T> & v) {return v[(size_t)choose((int)v.size())];}
  bool flip() {return choose(2) != 0;}

  __attribute__((format(printf, 2, 3)))
  void note(const char * f, ...)
  {
    if (!verbose) {return;}
    va_list ap;
    va_start(ap, f);
    trace.push_back(vfmt(f, ap));
    va_end(ap);
  }
  void observe(const std::string & s) {run.str(s);}
  void observe(uint64_t v) {run.u64(v);}
  void state(const H128 & h) {if (states) {states->insert(h);}}
  void state(const std::string & s) {if (states) {states->insert(hash_str(s));}}
  // which distinct result this execution ended with
  void outcome(const std::string & s)
  {
    if (outcomes && outcomes->size() < 2000000) {outcomes->insert(hash_str(s));}
  }
};

// ---------------------------------------------------------------- machines
struct Machine
{
  virtual ~Machine() {}
  virtual void start() = 0;
  virtual int nops() = 0;
  virtual bool enabled(int) {return true;}
  virtual std::string opname(int op) = 0;
  virtual void apply(int op) = 0;                 // calls the library exactly once
  virtual void check() {}                         // full observation against the model
  virtual void canon(Hasher & h) = 0;
  virtual void finish() = 0;
  // fault injection: arm the k-th fallible environment call of the next operation
  virtual void arm(int) {}
  virtual int disarm() {return 0;}                // number of fallible calls the operation made
  virtual int alternatives() {return 1;}          // failure patterns per call (1: only that call)
};

struct Task
{
  std::string name;
  // stateless
  std::function<void(Ctx &)> body;
  int shard = 0, nshards = 1, shard_depth = 2;
  // machine
  std::function<std::unique_ptr<Machine>()> make;
  int depth = 0;
  bool faults = false;
  int max_faults = 1;
  size_t max_states = 5000000;
};
inline std::vector<Task> & tasks() {static std::vector<Task> t; return t;}

// Register a stateless scenario, explored in nshards parallel parts split at the shard_depth-th
// choice.
inline void dfs(
  const std::string & name, std::function<void(Ctx &)> body, int nshards = 1, int shard_depth = 2)
{
  for (int i = 0; i < nshards; ++i) {
    Task t;
    t.name = name;
    t.body = body;
    t.shard = i;
    t.nshards = nshards;
    t.shard_depth = shard_depth;
    tasks().push_back(t);
  }
}
inline void machine(
  const std::string & name, std::function<std::unique_ptr<Machine>()> make, int depth,
  bool faults = false, int max_faults = 1)
{
  Task t;
  t.name = name;
  t.make = make;
  t.depth = depth;
  t.faults = faults;
  t.max_faults = max_faults;
  tasks().push_back(t);
}

struct Found
{
  std::string task, key, msg;
  std::vector<int> choices;
  std::vector<std::string> trace;
};
struct Result
{
  std::string name;
  uint64_t execs = 0, transitions = 0, states = 0, outcomes = 0;
  int depth = 0;
  bool complete = true;
  std::string cap;
  std::vector<Found> found;
  std::vector<std::string> samples;
};

// Once something was found, the rest of the exploration gets only a little more time.
inline std::atomic<double> * & stop_at()
{
  static std::atomic<double> * p = nullptr;
  return p;
}
inline void found_something()
{
  if (!stop_at() || !cfg().early_stop) {return;}
  double none = 0;
  stop_at()->compare_exchange_strong(none, now_s() + 20);
}
inline bool out_of_time()
{
  double t = now_s();
  if (t - cfg().t0 > cfg().deadline) {return true;}
  double s = stop_at() ? stop_at()->load() : 0;
  return s > 0 && t > s;
}

inline std::string path_text(const std::vector<int> & c)
{
  std::string s;
  for (size_t i = 0; i < c.size(); ++i) {s += fmt("%s%d", i ? "," : "", c[i]);}
  return s;
}

inline std::vector<std::string> sample_of(
  const std::function<void(Ctx &)> & body, const std::vector<Ctx::Pt> & path, Slot * slot)
{
  Ctx c;
  c.path = path;
  c.verbose = true;
  c.pruning = false;
  c.slot = slot;
  try {body(c);} catch (Violation &) {} catch (Divergence &) {}
  return c.trace;
}

inline void run_dfs(const Task & t, Result & r, Slot * slot)
{
  std::unordered_set<H128, H128Hash> states, outcomes;
  std::vector<Ctx::Pt> path;
  std::set<std::string> keys;
  bool more = true;
  uint64_t sample_at = 1;
  while (more) {
    Ctx c;
    c.path = path;
    c.fixed = path.size();
    c.shard = t.shard;
    c.nshards = t.nshards;
    c.shard_depth = t.shard_depth;
    c.slot = slot;
    c.states = &states;
    c.outcomes = &outcomes;
    slot->n = 0;
    bool pruned = false;
    try {
      t.body(c);
    } catch (Prune &) {
      pruned = true;
    } catch (Violation & v) {
      if (keys.insert(v.key).second && r.found.size() < 8) {
        Found f;
        f.task = t.name;
        f.key = v.key;
        f.msg = v.msg;
        for (auto & p : c.path) {f.choices.push_back(p.c);}
        f.choices.resize(c.pos);
        r.found.push_back(f);
        found_something();
      }
    }
    // Divergence is left to propagate: it is a bug of the harness.
    if (c.pos < c.fixed) {throw Divergence{"execution ended before its prefix did"};}
    c.path.resize(c.pos);
    bool mine = true;
    if (t.nshards > 1 && (int)c.pos < t.shard_depth) {mine = (t.shard == 0);}
    if (!pruned && mine) {
      ++r.execs;
      r.transitions += c.steps;
      if (r.execs == sample_at && r.samples.size() < 4) {
        std::string s;
        for (auto & l : sample_of(t.body, c.path, slot)) {s += (s.empty() ? "" : "; ") + l;}
        if (!s.empty()) {r.samples.push_back(s);}
        sample_at = sample_at * 37 + 11;
      }
    }
    ++slot->beat;
    // next
    path = c.path;
    while (!path.empty() && path.back().c + 1 >= path.back().n) {path.pop_back();}
    if (path.empty()) {more = false;} else {++path.back().c;}
    if (more && (r.execs & 63) == 0 && out_of_time()) {
      r.complete = false;
      r.cap = "deadline";
      more = false;
    }
  }
  r.states = states.size();
  r.outcomes = outcomes.size();
}

// Runs one machine history; returns the canonical hash of the final state.
struct MachineRun
{
  H128 h{0, 0};
  int calls = 0;      // fallible environment calls of the last operation
  std::vector<std::string> trace;
};
inline MachineRun run_history(
  const Task & t, const std::vector<int> & hist, bool verbose, Slot * slot, bool * enabled_out)
{
  MachineRun r;
  std::unique_ptr<Machine> m = t.make();
  m->start();
  for (size_t i = 0; i + 1 < hist.size(); i += 2) {
    int op = hist[i], k = hist[i + 1];
    if (slot && i + 1 < MAX_CHOICES) {
      slot->choices[i] = op;
      slot->choices[i + 1] = k;
      slot->n = (int)i + 2;
    }
    if (!m->enabled(op)) {
      if (enabled_out) {*enabled_out = false;}
      m->finish();
      return r;
    }
    if (verbose) {
      r.trace.push_back(m->opname(op) + (k ? fmt("  [environment failure pattern %d]", k) : ""));
    }
    m->arm(k);
    m->apply(op);
    r.calls = m->disarm();
    bool last = i + 3 >= hist.size();
    if (last || verbose) {m->check();}
  }
  if (hist.empty()) {m->check();}
  Hasher h;
  m->canon(h);
  r.h = h.get();
  m->finish();
  return r;
}

inline void run_machine(const Task & t, Result & r, Slot * slot)
{
  struct Node {int parent; int op, k; int depth; int faults;};
  std::vector<Node> nodes;
  std::unordered_set<H128, H128Hash> seen;
  std::set<std::string> keys;
  auto history = [&](int id) {
      std::vector<int> h;
      for (int n = id; n > 0; n = nodes[(size_t)n].parent) {
        h.push_back(nodes[(size_t)n].k);
        h.push_back(nodes[(size_t)n].op);
      }
      std::vector<int> out(h.rbegin(), h.rend());
      return out;
    };
  auto record = [&](const Violation & v, const std::vector<int> & h) {
      if (keys.insert(v.key).second && r.found.size() < 8) {
        Found f;
        f.task = t.name;
        f.key = v.key;
        f.msg = v.msg;
        f.choices = h;
        r.found.push_back(f);
        found_something();
      }
    };
  nodes.push_back(Node{-1, -1, 0, 0, 0});
  int nops;
  {
    std::unique_ptr<Machine> m = t.make();
    nops = m->nops();
  }
  slot->n = 0;
  try {
    MachineRun s = run_history(t, {}, false, slot, nullptr);
    seen.insert(s.h);
  } catch (Violation & v) {
    record(v, {});
    return;
  }
  int alts = t.make()->alternatives();
  size_t head = 0;
  while (head < nodes.size()) {
    Node nd = nodes[head];
    if (nd.depth >= t.depth) {break;}
    r.depth = nd.depth + 1;
    std::vector<int> base = history((int)head);
    for (int op = 0; op < nops; ++op) {
      int ncalls = 0;
      int kmax = 0;
      for (int k = 0; k <= kmax; ++k) {
        std::vector<int> h = base;
        h.push_back(op);
        h.push_back(k);
        bool en = true;
        try {
          MachineRun s = run_history(t, h, false, slot, &en);
          if (!en) {break;}
          ++r.execs;
          ++r.transitions;
          if (k == 0) {
            ncalls = s.calls;
            if (t.faults && nd.faults < t.max_faults) {kmax = ncalls * alts;}
          }
          if (seen.insert(s.h).second) {
            if (nodes.size() < t.max_states) {
              nodes.push_back(Node{(int)head, op, k, nd.depth + 1, nd.faults + (k ? 1 : 0)});
            } else {
              r.complete = false;
              r.cap = "state cap";
            }
          }
        } catch (Violation & v) {
          ++r.execs;
          record(v, h);
        }
        ++slot->beat;
      }
      if (out_of_time()) {
        r.complete = false;
        r.cap = fmt("deadline at depth %d", nd.depth);
        r.states = seen.size();
        return;
      }
    }
    ++head;
  }
  r.states = seen.size();
  r.outcomes = seen.size();
  // sample histories: a deep one and a middle one
  for (size_t id : {nodes.size() / 2, nodes.size() - 1}) {
    if (id == 0) {continue;}
    try {
      MachineRun s = run_history(t, history((int)id), true, slot, nullptr);
      std::string x;
      for (auto & l : s.trace) {x += (x.empty() ? "" : "; ") + l;}
      r.samples.push_back(x);
    } catch (Violation &) {
    }
  }
}

inline void run_task(const Task & t, Result & r, Slot * slot)
{
  r.name = t.name;
  if (t.body) {run_dfs(t, r, slot);} else {run_machine(t, r, slot);}
}

// Replays a choice list once. Returns true and fills f when it violates.
inline bool replay(const Task & t, const std::vector<int> & choices, Found & f, Slot * slot)
{
  f.task = t.name;
  f.choices = choices;
  if (t.body) {
    Ctx c;
    for (int x : choices) {c.path.push_back(Ctx::Pt{x, -1});}
    c.verbose = true;
    c.pruning = false;
    c.slot = slot;
    try {
      t.body(c);
    } catch (Violation & v) {
      f.key = v.key;
      f.msg = v.msg;
      f.trace = c.trace;
      return true;
    }
    f.trace = c.trace;
    return false;
  }
  std::vector<std::string> tr;
  try {
    std::unique_ptr<Machine> m = t.make();
    m->start();
    m->check();
    for (size_t i = 0; i + 1 < choices.size(); i += 2) {
      if (slot) {slot->choices[i] = choices[i]; slot->choices[i + 1] = choices[i + 1]; slot->n = (int)i + 2;}
      tr.push_back(
        m->opname(choices[i]) +
        (choices[i + 1] ? fmt("  [environment failure pattern %d]", choices[i + 1]) : ""));
      printf("step: %s\n", tr.back().c_str());
      fflush(stdout);
      m->arm(choices[i + 1]);
      m->apply(choices[i]);
      m->disarm();
      m->check();
    }
    Hasher h;
    m->canon(h);
    m->finish();
  } catch (Violation & v) {
    f.key = v.key;
    f.msg = v.msg;
    f.trace = tr;
    return true;
  }
  f.trace = tr;
  return false;
}

// ---------------------------------------------------------------- driver
inline void write_all(int fd, const std::string & s)
{
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) {return;}
    o += (size_t)n;
  }
}
inline std::string found_json(const Found & f)
{
  std::string s = "{\"task\":" + jstr(f.task) + ",\"key\":" + jstr(f.key) + ",\"msg\":" + jstr(f.msg) +
    ",\"choices\":[" + path_text(f.choices) + "],\"trace\":[";
  for (size_t i = 0; i < f.trace.size(); ++i) {s += (i ? "," : "") + jstr(f.trace[i]);}
  return s + "]}";
}
inline std::string result_json(const Result & r, bool crashed)
{
  std::string s = "{\"name\":" + jstr(r.name) + fmt(
    ",\"execs\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,\"depth\":%d",
    (unsigned long long)r.execs, (unsigned long long)r.transitions, (unsigned long long)r.states,
    (unsigned long long)r.outcomes, r.depth) +
    ",\"complete\":" + (r.complete ? "true" : "false") + ",\"crashed\":" + (crashed ? "true" : "false") +
    ",\"cap\":" + jstr(r.cap) + ",\"found\":[";
  for (size_t i = 0; i < r.found.size(); ++i) {s += (i ? "," : "") + found_json(r.found[i]);}
  s += "],\"samples\":[";
  for (size_t i = 0; i < r.samples.size(); ++i) {s += (i ? "," : "") + jstr(r.samples[i]);}
  return s + "]}\n";
}

inline std::string read_file(const std::string & p)
{
  std::string s;
  FILE * f = fopen(p.c_str(), "r");
  if (!f) {return s;}
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) {s.append(b, n);}
  fclose(f);
  return s;
}

struct Shared
{
  std::atomic<int> next;
  std::atomic<double> stop;
  Slot slots[64];
  Slot replay_slot;
};

// Runs `fn` in a child with output redirected to `log`; returns wait status, or -1 for a hang.
inline int contained(
  const std::function<void()> & fn, const std::string & log, double limit)
{
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    FILE * f = freopen(log.c_str(), "w", stdout);
    (void)f;
    dup2(1, 2);
    fn();
    fflush(nullptr);
    _exit(0);
  }
  double t0 = now_s();
  for (;;) {
    int st;
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) {return st;}
    if (now_s() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      return -1;
    }
    usleep(2000);
  }
}

inline std::string crash_summary(const std::string & log)
{
  // first line of a sanitizer / assert report
  std::string out;
  size_t i = 0;
  while (i < log.size()) {
    size_t e = log.find('\n', i);
    if (e == std::string::npos) {e = log.size();}
    std::string l = log.substr(i, e - i);
    if (l.find("ERROR: AddressSanitizer") != std::string::npos ||
      l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos ||
      l.find("SUMMARY") != std::string::npos || l.find("terminate called") != std::string::npos ||
      l.find("buffer overflow detected") != std::string::npos)
    {
      size_t b = l.find("ERROR: ");
      if (b != std::string::npos) {l = l.substr(b);}
      out += (out.empty() ? "" : " | ") + l;
      if (out.size() > 500) {break;}
    }
    i = e + 1;
  }
  return out;
}

inline int default_workers()
{
  long n = sysconf(_SC_NPROCESSORS_ONLN);
  if (n < 1) {n = 1;}
  if (n > 16) {n = 16;}
  return (int)n;
}

// Harness entry: setup() registers tasks for cfg().prop; worker_init() runs once per process that
// executes tasks.
inline int main_(
  int argc, char ** argv, const std::function<void()> & setup,
  const std::function<void()> & worker_init)
{
  std::string out = "/tmp", replay_arg, replay_task, only;
  cfg().workers = default_workers();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() {return std::string(i + 1 < argc ? argv[++i] : "");};
    if (a == "--prop") {cfg().prop = val();} else if (a == "--out") {out = val();} else if (
      a == "--tier") {cfg().thorough = val() == "thorough";} else if (a == "--workers") {
      cfg().workers = atoi(val().c_str());
    } else if (a == "--all") {cfg().early_stop = false;
    } else if (a == "--deadline") {cfg().deadline = atof(val().c_str());} else if (
      a == "--replay") {replay_task = val(); replay_arg = val();} else if (a == "--only") {only = val();}
  }
  cfg().out = out;
  cfg().t0 = now_s();
  signal(SIGPIPE, SIG_IGN);
  setup();
  auto & T = tasks();
  if (!only.empty()) {
    std::vector<Task> k;
    for (auto & t : T) {if (t.name.find(only) != std::string::npos) {k.push_back(t);}}
    T = k;
  }
  auto parse = [](const std::string & s) {
      std::vector<int> v;
      size_t i = 0;
      while (i < s.size()) {
        size_t e = s.find(',', i);
        if (e == std::string::npos) {e = s.size();}
        v.push_back(atoi(s.substr(i, e - i).c_str()));
        i = e + 1;
      }
      return v;
    };
  if (!replay_task.empty()) {
    for (auto & t : T) {
      if (t.name != replay_task) {continue;}
      worker_init();
      Found f;
      bool bad = replay(t, parse(replay_arg), f, nullptr);
      for (auto & l : f.trace) {printf("  %s\n", l.c_str());}
      printf(bad ? "VIOLATED %s: %s\n" : "no violation %s%s\n", f.key.c_str(), f.msg.c_str());
      return bad ? 1 : 0;
    }
    fprintf(stderr, "no task %s\n", replay_task.c_str());
    return 2;
  }
  Shared * sh = (Shared *)mmap(
    nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->next = 0;
  sh->stop = 0;
  stop_at() = &sh->stop;
  int W = cfg().workers;
  if (W > 64) {W = 64;}
  if (W > (int)T.size()) {W = (int)T.size();}
  std::string resf = out + "/results.jsonl";
  unlink(resf.c_str());
  auto worker = [&](int w) {
      worker_init();
      Slot * s = &sh->slots[w];
      for (;;) {
        int t = sh->next.fetch_add(1);
        if (t >= (int)T.size()) {break;}
        s->task = t;
        s->n = 0;
        s->busy = 1;
        ++s->beat;
        Result r;
        bool div = false;
        try {
          run_task(T[(size_t)t], r, s);
        } catch (Divergence & d) {
          r.cap = "DIVERGENCE " + d.msg + " at " ;
          for (int i = 0; i < s->n; ++i) {r.cap += fmt("%d,", s->choices[i]);}
          r.complete = false;
          div = true;
        }
        (void)div;
        FILE * f = fopen(resf.c_str(), "a");
        std::string js = result_json(r, false);
        if (f) {
          setvbuf(f, nullptr, _IOFBF, js.size() + 64);
          fwrite(js.data(), 1, js.size(), f);
          fclose(f);
        }
        s->busy = 0;
      }
    };
  struct W_ {pid_t pid; uint64_t beat; double t;};
  std::vector<W_> ws((size_t)W);
  auto spawn = [&](int w) {
      fflush(nullptr);
      sh->slots[w].busy = 0;
      pid_t p = fork();
      if (p == 0) {
        std::string log = out + fmt("/worker%d.log", w);
        FILE * f = freopen(log.c_str(), "w", stdout);
        (void)f;
        dup2(1, 2);
        worker(w);
        fflush(nullptr);
        _exit(0);
      }
      ws[(size_t)w] = W_{p, sh->slots[w].beat, now_s()};
    };
  std::vector<std::pair<int, Found>> crashes;   // task index, found
  for (int w = 0; w < W; ++w) {spawn(w);}
  int live = W;
  int ncrash = 0;
  while (live > 0) {
    usleep(5000);
    for (int w = 0; w < W; ++w) {
      if (ws[(size_t)w].pid <= 0) {continue;}
      int st;
      pid_t p = waitpid(ws[(size_t)w].pid, &st, WNOHANG);
      Slot & s = sh->slots[w];
      bool hang = false;
      if (p == 0) {
        if (s.beat != ws[(size_t)w].beat) {
          ws[(size_t)w].beat = s.beat;
          ws[(size_t)w].t = now_s();
        } else if (s.busy && now_s() - ws[(size_t)w].t > cfg().hang) {
          hang = true;
          kill(ws[(size_t)w].pid, SIGKILL);
          waitpid(ws[(size_t)w].pid, &st, 0);
        } else {
          continue;
        }
        if (!hang) {continue;}
      }
      bool ok = !hang && WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (ok) {
        ws[(size_t)w].pid = 0;
        --live;
        continue;
      }
      // crashed or hung inside task s.task
      ++ncrash;
      Found f;
      f.task = T[(size_t)s.task].name;
      f.key = hang ? "hang" : "crash";
      f.msg = hang ? "no progress" :
        (WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st)));
      for (int i = 0; i < s.n && i < MAX_CHOICES; ++i) {f.choices.push_back(s.choices[i]);}
      std::string log = read_file(out + fmt("/worker%d.log", w));
      f.msg += ": " + crash_summary(log);
      crashes.push_back({s.task, f});
      found_something();
      Result r;
      r.name = f.task;
      r.complete = false;
      r.cap = "stopped at a " + f.key;
      FILE * o = fopen(resf.c_str(), "a");
      std::string js = result_json(r, true);
      fwrite(js.data(), 1, js.size(), o);
      fclose(o);
      if (ncrash < 12) {spawn(w);} else {ws[(size_t)w].pid = 0; --live;}
    }
  }
  // Confirm every crash/hang and every reported violation by replaying it alone, twice.
  std::string conf = out + "/confirmed.jsonl";
  FILE * cf = fopen(conf.c_str(), "w");
  auto confirm = [&](const Task & t, const Found & f0, bool crashlike) {
      std::string verdict;
      Found best = f0;
      int same = 0;
      std::string lastlog;
      for (int i = 0; i < 2; ++i) {
        std::string rf = out + "/replay.json", log = out + "/replay.log";
        unlink(rf.c_str());
        int st = contained(
          [&]() {
            worker_init();
            Found f;
            bool bad = replay(t, f0.choices, f, &sh->replay_slot);
            if (bad) {
              FILE * o = fopen(rf.c_str(), "w");
              std::string js = found_json(f);
              fwrite(js.data(), 1, js.size(), o);
              fclose(o);
            } else {
              FILE * o = fopen((rf + ".ok").c_str(), "w");
              fclose(o);
            }
          }, log, f0.key == "hang" ? 60 : 120);
        lastlog = read_file(log);
        bool crashed_now = st == -1 || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
        std::string js = read_file(rf);
        if (crashlike ? crashed_now : (!js.empty() || crashed_now)) {++same;}
        if (crashlike && !crashed_now && !js.empty()) {++same;}
        if (!js.empty()) {verdict = js;}
      }
      std::string o;
      if (!verdict.empty() && !crashlike) {
        o = verdict;
      } else {
        std::string cs = crash_summary(lastlog);
        if (!cs.empty()) {best.msg = f0.key + ": " + cs;}
        // steps printed by a machine replay
        size_t i = 0;
        while (i < lastlog.size()) {
          size_t e = lastlog.find('\n', i);
          if (e == std::string::npos) {e = lastlog.size();}
          std::string l = lastlog.substr(i, e - i);
          if (l.compare(0, 6, "step: ") == 0) {best.trace.push_back(l.substr(6));}
          i = e + 1;
        }
        o = found_json(best);
      }
      std::string js = fmt("{\"confirmed\":%d,\"found\":", same) + o + ",\"log\":" +
        jstr(lastlog.substr(0, 6000)) + "}\n";
      fwrite(js.data(), 1, js.size(), cf);
    };
  for (auto & c : crashes) {confirm(T[(size_t)c.first], c.second, true);}
  // violations live in results.jsonl; the Python driver asks for their confirmation by --replay, so
  // that one binary invocation = one confirmation.
  fclose(cf);
  return 0;
}

}  // namespace mc
#endif  // MC_HPP_
