// Interleavings of threads inside the library: C22, C23 and C35. See tsanrt.hpp for the scheduler.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <set>

#include "mc.hpp"
#include "tsanrt.hpp"

#include "rcutils/allocator.h"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
#include "rcutils/types/hash_map.h"

extern "C" {
void rig_set_error(const char * m);
void rig_set_error_fmt(int n, const char * s);
int rig_fault_return(void);
int rig_fault_code(void);
void rig_log_named(const char * name, int n);
void rig_log_debug(int n);
void rig_log_expr(int n);
int rig_can_fail(int * p);
uint64_t rig_atomic(int type, int kind, int function, uint64_t a, uint64_t * e);
void rig_atomic_reset(uint64_t v);
uint64_t rig_atomic_final(int type);
void rig_plain_write(int i, uint64_t v);
uint64_t rig_plain_read(int i);
extern char __start_rcudata[] __attribute__((weak)), __stop_rcudata[] __attribute__((weak));
extern char __start_rcubss[] __attribute__((weak)), __stop_rcubss[] __attribute__((weak));
}

namespace
{
using mc::fmt;

struct Snap {char * a; size_t n; char * copy;};
std::vector<Snap> snaps;
void snap_take()
{
  auto one = [](char * a, char * b) {
      if (!a || b <= a) {return;}
      Snap s{a, (size_t)(b - a), (char *)malloc((size_t)(b - a))};
      memcpy(s.copy, s.a, s.n);
      snaps.push_back(s);
    };
  one(__start_rcudata, __stop_rcudata);
  one(__start_rcubss, __stop_rcubss);
}
void snap_restore() {for (auto & s : snaps) {memcpy(s.a, s.copy, s.n);}}

std::string g_dir;              // a small directory tree made by this process

// Runs the bodies under one schedule; races are violations of every property here.
rt::Report go(mc::Ctx & c, const std::vector<std::function<void()>> & bodies, const rt::Options & o, const char * id)
{
  snap_restore();
  rt::Report r = rt::run(c, bodies, o);
  c.steps += r.points;
  MC_CHECK(r.race.empty(), fmt("%s:race", id).c_str(), "%s", r.race.c_str());
  return r;
}

// ------------------------------------------------------------------ C22: error state per thread
// Each thread runs a short program of error operations and compares every answer with its own model.
const int EOPS = 9;
const char * eop_name(int op)
{
  static const char * const n[] = {"set_error_state", "SET_ERROR_MSG", "SET_ERROR_MSG_WITH_FORMAT_STRING",
    "get_error_string", "get_error_state", "error_is_set", "reset_error", "a failing library call",
    "initialize_thread_local_storage"};
  return n[op];
}
struct ErrThread
{
  int id;
  std::vector<int> prog;
  std::string wrong;
  bool set = false;
  std::string msg, file;        // file empty: not known, only its presence is checked
  size_t line = 0;
  explicit ErrThread(int i)
  : id(i) {}
  void bad(const std::string & s) {if (wrong.empty()) {wrong = fmt("thread %d: ", id) + s;}}
  void learn(const std::string & m, const std::string & f, size_t l)
  {
    set = true;
    msg = m;
    file = f;
    line = l;
  }
  void see_string()
  {
    rcutils_error_string_t s = rcutils_get_error_string();
    rt::Quiet q;
    std::string t(s.str, strnlen(s.str, sizeof(s.str)));
    if (!set) {
      if (t != "error not set") {bad(fmt("without an error the string is %s", mc::q(t).c_str()));}
      return;
    }
    if (!file.empty()) {
      std::string e = msg + ", at " + file + fmt(":%zu", line);
      if (t != e) {bad(fmt("the error string is %s, expected %s", mc::q(t).c_str(), mc::q(e).c_str()));}
    } else if (t.compare(0, msg.size() + 5, msg + ", at ") != 0) {
      bad(fmt("the error string is %s, expected one of %s", mc::q(t).c_str(), mc::q(msg).c_str()));
    }
  }
  void see_state()
  {
    const rcutils_error_state_t * s = rcutils_get_error_state();
    rcutils_error_state_t v = rcutils_error_state_t();
    if (s) {memcpy((void *)&v, s, sizeof(v));}       // observed as an access by this thread
    rt::Quiet q;
    if (!set) {return;}
    if (!s || v.message != msg || (!file.empty() && (v.file != file || v.line_number != line))) {
      bad(
        fmt(
          "the error state holds %s from %s:%zu, expected %s from %s:%zu", mc::q(v.message).c_str(), v.file,
          (size_t)v.line_number, mc::q(msg).c_str(), file.c_str(), line));
    }
  }
  void see_set()
  {
    bool b = rcutils_error_is_set();
    rt::Quiet q;
    if (b != set) {bad(fmt("error_is_set is %d, expected %d", b, set));}
  }
  void run()
  {
    static const char * const ms[] = {"first", "the second thread's message", "3"};
    int k = 0;
    for (int op : prog) {
      ++k;
      char m[64], f[64];
      {
        rt::Quiet q;
        snprintf(m, sizeof(m), "%s/%d", ms[id], k);
        snprintf(f, sizeof(f), "file_of_%d_%d.c", id, k);
      }
      switch (op) {
        case 0:
          rcutils_set_error_state(m, f, (size_t)(100 * id + k));
          {rt::Quiet q; learn(m, f, (size_t)(100 * id + k));}
          break;
        case 1:
          rig_set_error(m);
          {rt::Quiet q; learn(m, "", 0);}
          break;
        case 2:
          rig_set_error_fmt(id * 10 + k, m);
          {rt::Quiet q; learn(fmt("number %d of %s", id * 10 + k, m), "", 0);}
          break;
        case 3: see_string(); break;
        case 4: see_state(); break;
        case 5: see_set(); break;
        case 6:
          rcutils_reset_error();
          set = false;
          break;
        case 7:
          {
            rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
            rcutils_allocator_t a = rcutils_get_default_allocator();
            rcutils_ret_t r = rcutils_array_list_init(&l, 0, 4, &a);
            rt::Quiet q;
            if (r != RCUTILS_RET_INVALID_ARGUMENT) {bad(fmt("array_list_init of capacity 0 returned %d", r));}
          }
          // its message is learned from the library
          {
            bool b = rcutils_error_is_set();
            rcutils_error_string_t s = rcutils_get_error_string();
            rt::Quiet q;
            std::string t = s.str;
            size_t at = t.rfind(", at ");
            if (!b || at == std::string::npos || t.find("array_list.c") == std::string::npos) {
              bad(fmt("after the failing call the error string is %s", mc::q(t).c_str()));
            } else {
              learn(t.substr(0, at), "", 0);
            }
          }
          break;
        default:
          {
            rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(rcutils_get_default_allocator());
            rt::Quiet q;
            if (r != RCUTILS_RET_OK) {bad(fmt("initialization returned %d", r));}
            // a first initialization leaves no error; a later one changes nothing
            if (k == 1) {set = false;}
          }
          break;
      }
    }
    see_set();
    see_string();
    if (set) {see_state();}
  }
};

std::string prog_text(const std::vector<int> & p)
{
  std::string s;
  for (int o : p) {s += (s.empty() ? "" : ", ") + std::string(eop_name(o));}
  return "[" + s + "]";
}
void errors(mc::Ctx & c, const std::vector<int> & lens, int bound, int kinds)
{
  std::vector<ErrThread> ts;
  for (size_t i = 0; i < lens.size(); ++i) {
    ts.emplace_back((int)i);
    for (int k = 0; k < lens[i]; ++k) {
      // the first operation of a program sets something, an initialization only makes sense first
      static const int firsts[] = {0, 2, 7, 8, 1};
      static const int later[] = {0, 3, 6, 4, 7, 2, 5};
      ts.back().prog.push_back(k == 0 ? firsts[c.choose(std::min(kinds, 5))] : later[c.choose(std::min(kinds + 1, 7))]);
    }
    c.note("thread %zu: %s", i, prog_text(ts.back().prog).c_str());
  }
  // the threads are interchangeable: one order of their programs is enough
  for (size_t i = 0; i + 1 < ts.size(); ++i) {if (lens[i] == lens[i + 1] && ts[i].prog > ts[i + 1].prog) {return;}}
  std::vector<std::function<void()>> b;
  for (auto & t : ts) {b.push_back([&t] {t.run();});}
  rt::Options o;
  o.preemptions = bound;
  o.tls_visible = true;
  rt::Report r = go(c, b, o, "errors");
  for (auto & t : ts) {MC_CHECK(t.wrong.empty(), "errors:mixed", "%s", t.wrong.c_str());}
  std::string all;
  for (auto & t : ts) {all += t.set ? t.msg : "-";}
  c.outcome(all);
}

// ------------------------------------------------------------------ C23: fault-injection countdown
// sequential specification: a counter; every history must be a linearization of it
struct Op
{
  int kind;                     // 0 fault point, 1 set(arg), 2 get, 3 complete?
  int64_t arg = 0, res = 0;
  uint64_t begin = 0, end = 0;
};
bool apply_op(const Op & o, int64_t & v)
{
  switch (o.kind) {
    case 0:
      if (v < 0) {return o.res == 0;}
      {
        bool f = v == 0;
        --v;
        return o.res == (f ? 1 : 0);
      }
    case 1: v = o.arg; return true;
    case 2: return o.res == v;
    default: return o.res == (v > -1 ? 1 : 0);
  }
}
bool linearize(const std::vector<Op> & h, unsigned done, int64_t v, int64_t final, std::set<std::pair<unsigned, int64_t>> & seen)
{
  if (done == (1u << h.size()) - 1) {return v == final;}
  if (!seen.insert({done, v}).second) {return false;}
  for (size_t i = 0; i < h.size(); ++i) {
    if (done >> i & 1) {continue;}
    bool first = true;
    for (size_t j = 0; j < h.size(); ++j) {
      if (j != i && !(done >> j & 1) && h[j].end < h[i].begin) {first = false;}
    }
    if (!first) {continue;}
    int64_t w = v;
    if (apply_op(h[i], w) && linearize(h, done | 1u << i, w, final, seen)) {return true;}
  }
  return false;
}
std::string op_text(const Op & o)
{
  switch (o.kind) {
    case 0: return fmt("fault point %s", o.res ? "FAILED" : "passed");
    case 1: return fmt("set_count(%" PRId64 ")", o.arg);
    case 2: return fmt("get_count -> %" PRId64, o.res);
    default: return fmt("is_test_complete -> %d", (int)o.res);
  }
}
void perform(Op & o, int flavour)
{
  {rt::Quiet q; o.begin = rt::stamp();}
  switch (o.kind) {
    case 0:
      if (flavour == 0) {o.res = rig_fault_return();} else if (flavour == 1) {o.res = rig_fault_code();} else {
        // the library's own fault points
        int p = 0;
        o.res = rig_can_fail(&p) == RCUTILS_RET_OK ? 0 : 1;
      }
      break;
    case 1: rcutils_fault_injection_set_count(o.arg); break;
    case 2: o.res = rcutils_fault_injection_get_count(); break;
    default: o.res = rcutils_fault_injection_is_test_complete(); break;
  }
  {rt::Quiet q; o.end = rt::stamp();}
}
// mode 0: fault points only, from every count; mode 1: mixed programs
void faults(mc::Ctx & c, int threads, int len, int bound, bool mixed)
{
  int64_t start;
  std::vector<std::vector<Op>> p((size_t)threads);
  if (!mixed) {
    start = c.choose(threads * len + 3) - 2;
    for (auto & t : p) {t.resize((size_t)len);}
    for (auto & t : p) {for (auto & o : t) {o.kind = 0;}}
  } else {
    start = c.choose(3) - 1;
    for (auto & t : p) {
      for (int k = 0; k < len; ++k) {
        Op o;
        int w = c.choose(5);
        o.kind = w < 2 ? w : w == 2 ? 2 : w == 3 ? 1 : 3;
        if (w == 1) {o.arg = 1;}
        if (w == 3) {o.arg = -1;}
        if (w == 4) {o.kind = 3;}
        t.push_back(o);
      }
    }
  }
  int flavour = c.choose(mixed ? 1 : 3);
  c.note("count %" PRId64 ", %d threads with %d operations each", start, threads, len);
  std::vector<std::function<void()>> b;
  for (auto & t : p) {b.push_back([&t, flavour] {for (auto & o : t) {perform(o, flavour);}});}
  rt::Options o;
  o.preemptions = bound;
  o.stdio_visible = false;
  snap_restore();
  rcutils_fault_injection_set_count(start);
  rt::Report r = rt::run(c, b, o);
  c.steps += r.points;
  MC_CHECK(r.race.empty(), "faults:race", "%s", r.race.c_str());
  int64_t fin = rcutils_fault_injection_get_count();
  rcutils_fault_injection_set_count(-1);
  std::vector<Op> h;
  for (auto & t : p) {for (auto & x : t) {h.push_back(x);}}
  std::string text;
  for (size_t i = 0; i < p.size(); ++i) {
    for (auto & x : p[i]) {text += fmt("%sthread %zu [%" PRIu64 "-%" PRIu64 "]: ", text.empty() ? "" : "; ", i, x.begin, x.end) + op_text(x);}
  }
  c.note("%s; final count %" PRId64, text.c_str(), fin);
  if (!mixed) {
    int failed = 0;
    for (auto & x : h) {failed += x.res != 0;}
    int total = threads * len;
    int want = start >= 0 && start < total ? 1 : 0;
    MC_CHECK(
      failed == want, "faults:number", "%d of %d fault points failed after set_count(%" PRId64 "), expected %d: %s",
      failed, total, start, want, text.c_str());
    int64_t wf = start < 0 ? start : std::max<int64_t>(start - total, -1);
    MC_CHECK(
      fin == wf, "faults:final", "the count ends at %" PRId64 " after %d fault points from %" PRId64 ", expected %" PRId64,
      fin, total, start, wf);
  }
  std::set<std::pair<unsigned, int64_t>> seen;
  MC_CHECK(
    linearize(h, 0, start, fin, seen), "faults:order",
    "no order of the operations explains the results from count %" PRId64 ": %s; final count %" PRId64, start,
    text.c_str(), fin);
  c.outcome(text.substr(0, 0) + fmt("%" PRId64 "/%" PRId64 "/%zu", start, fin, seen.size()));
  std::string res;
  for (auto & x : h) {res += fmt("%" PRId64 ",", x.res);}
  c.outcome(fmt("%" PRId64 ":%s%" PRId64, start, res.c_str(), fin));
}

// ------------------------------------------------------------------ C41: atomic helpers
const char * const TYPES4[] = {"bool", "int64", "uint64", "uintptr"};
const char * const AOPS[] = {"load", "store", "exchange", "compare_exchange", "fetch_add"};
struct AOp
{
  int type, kind, function;
  uint64_t a = 0, e = 0;        // operand; expected
  uint64_t res = 0, seen = 0;   // result; expected afterwards
  uint64_t begin = 0, end = 0;
  void perform()
  {
    {rt::Quiet q; begin = rt::stamp();}
    uint64_t x = e;
    res = rig_atomic(type, kind, function, a, &x);
    {rt::Quiet q; seen = x; end = rt::stamp();}
  }
  // the sequential meaning
  bool explains(uint64_t & v) const
  {
    uint64_t old = v;
    switch (kind) {
      case 0: return res == v;
      case 1: v = a; return true;
      case 2: v = a; return res == old;
      case 3:
        if (v == e) {v = a; return res == 1 && seen == e;}
        return res == 0 && seen == v;
      default: v += a; return res == old;
    }
  }
  std::string text() const
  {
    std::string s = AOPS[kind];
    if (kind) {s += fmt("(%s0x%" PRIx64 ")", kind == 3 ? fmt("0x%" PRIx64 " -> ", e).c_str() : "", a);}
    if (kind != 1) {s += fmt(" = 0x%" PRIx64, res);}
    if (kind == 3) {s += fmt(", saw 0x%" PRIx64, seen);}
    return s;
  }
};
bool atomic_order(const std::vector<AOp> & h, unsigned done, uint64_t v, uint64_t final, std::set<std::pair<unsigned, uint64_t>> & seen)
{
  if (done == (1u << h.size()) - 1) {return v == final;}
  if (!seen.insert({done, v}).second) {return false;}
  for (size_t i = 0; i < h.size(); ++i) {
    if (done >> i & 1) {continue;}
    bool first = true;
    for (size_t j = 0; j < h.size(); ++j) {
      if (j != i && !(done >> j & 1) && h[j].end < h[i].begin) {first = false;}
    }
    if (!first) {continue;}
    uint64_t w = v;
    if (h[i].explains(w) && atomic_order(h, done | 1u << i, w, final, seen)) {return true;}
  }
  return false;
}
void atomics(mc::Ctx & c, const std::vector<int> & lens, int nv)
{
  static const uint64_t vals[] = {0, 0xfedcba9876543210u, 1, 0x100000000u, UINT64_MAX, 0x7fffffffffffffffu};
  static const uint64_t bools[] = {0, 1};
  const uint64_t * vs = vals;
  int type = c.choose(4);
  int function = c.choose(2);
  if (type == 0) {nv = 2; vs = bools;}
  uint64_t start = vs[c.choose(nv)];
  std::vector<std::vector<AOp>> p;
  for (int len : lens) {
    p.emplace_back();
    for (int k = 0; k < len; ++k) {
      AOp o{};
      o.type = type;
      o.kind = c.choose(type == 0 ? 4 : 5);
      o.function = function;
      if (o.kind) {o.a = vs[c.choose(nv)];}
      if (o.kind == 3) {o.e = vs[c.choose(nv)];}
      p.back().push_back(o);
    }
  }
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    // the threads are interchangeable
    auto key = [](const std::vector<AOp> & t) {
        std::vector<uint64_t> s;
        for (auto & o : t) {s.insert(s.end(), {(uint64_t)o.kind, (uint64_t)o.function, o.a, o.e});}
        return s;
      };
    if (lens[i] == lens[i + 1] && key(p[i]) > key(p[i + 1])) {return;}
  }
  std::vector<std::function<void()>> b;
  for (auto & t : p) {b.push_back([&t] {for (auto & o : t) {o.perform();}});}
  rt::Options o;
  o.preemptions = 99;
  o.stdio_visible = false;
  rig_atomic_reset(start);
  rt::Report r = rt::run(c, b, o);
  c.steps += r.points;
  uint64_t fin = rig_atomic_final(type);
  std::vector<AOp> h;
  std::string text;
  for (size_t i = 0; i < p.size(); ++i) {
    for (auto & x : p[i]) {
      h.push_back(x);
      text += fmt("%sthread %zu [%" PRIu64 "-%" PRIu64 "]: ", text.empty() ? "" : "; ", i, x.begin, x.end) + x.text();
    }
  }
  c.note("%s from 0x%" PRIx64 ": %s; ends at 0x%" PRIx64, TYPES4[type], start, text.c_str(), fin);
  MC_CHECK(r.race.empty(), "atomics:race", "%s", r.race.c_str());
  std::set<std::pair<unsigned, uint64_t>> seen;
  MC_CHECK(
    atomic_order(h, 0, start, fin, seen), "atomics:order",
    "no order of the operations on a %s explains the results from 0x%" PRIx64 ": %s; final value 0x%" PRIx64, TYPES4[type],
    start, text.c_str(), fin);
  std::string res;
  for (auto & x : h) {res += fmt("%" PRIx64 ",", x.res);}
  c.outcome(fmt("%d %" PRIx64 " %s %" PRIx64, type, start, res.c_str(), fin));
}
// what was written before a value was published is visible to whoever sees that value
void publishing(mc::Ctx & c, int readers)
{
  int type = c.choose(4);
  AOp w{};
  w.type = type;
  w.kind = 1 + c.choose(type == 0 ? 3 : 4);
  w.function = c.choose(2);
  w.a = 1;
  w.e = 0;
  std::vector<AOp> rs;
  for (int i = 0; i < readers; ++i) {
    AOp o{};
    o.type = type;
    static const int kinds[] = {0, 2, 3, 3, 4};   // compare-exchange from 1, and from 0
    // with a second reader only operations that leave the register as it is
    static const int keep[] = {0, 2, 4};
    int k = readers == 1 ? c.choose(type == 0 ? 4 : 5) : keep[c.choose(type == 0 ? 2 : 3)];
    o.kind = kinds[k];
    o.function = c.choose(2);
    o.a = o.kind == 4 ? 0 : 1;
    o.e = k == 2 ? 1 : 0;                       // succeeding or failing when the value is there
    rs.push_back(o);
  }
  c.note("%s: publish with %s", TYPES4[type], AOPS[w.kind]);
  std::vector<uint64_t> got((size_t)readers, 42);
  int saw = 0;
  std::vector<std::function<void()>> b;
  b.push_back([&] {rig_plain_write(1, 42); w.perform();});
  for (int i = 0; i < readers; ++i) {
    b.push_back([&, i] {
        AOp & o = rs[(size_t)i];
        o.perform();
        bool there;
        {
          rt::Quiet q;
          there = o.kind == 3 ? (o.res == 1) == (o.e == 1) && (o.res ? o.e : o.seen) == 1 : o.res == 1;
          if (there) {++saw;}
        }
        if (there) {got[(size_t)i] = rig_plain_read(1);}
      });
  }
  rt::Options o;
  o.preemptions = 99;
  o.stdio_visible = false;
  rig_atomic_reset(0);
  rt::Report r = rt::run(c, b, o);
  c.steps += r.points;
  MC_CHECK(r.race.empty(), "atomics:publish", "%s", r.race.c_str());
  for (auto v : got) {MC_CHECK(v == 42, "atomics:publish", "a published value was seen without what was written before it");}
  c.outcome(fmt("%d %d", type, saw));
}
// every value of the operands, one thread
void atomics_sequential(mc::Ctx & c, int depth)
{
  static const uint64_t vals[] = {0, 1, 255, 256, 0xffffffffu, 0x100000000u, 0x7fffffffffffffffu, 0x8000000000000000u,
    0xfedcba9876543210u, UINT64_MAX};
  int type = c.choose(4);
  int nv = type == 0 ? 2 : 10;
  uint64_t v = vals[c.choose(nv)];
  uint64_t start = v;
  rig_atomic_reset(v);
  for (int i = 0; i < depth; ++i) {
    AOp o{};
    o.type = type;
    o.kind = c.choose(type == 0 ? 4 : 5);
    o.function = c.choose(2);
    if (o.kind) {o.a = vals[c.choose(nv)];}
    if (o.kind == 3) {o.e = c.flip() ? v : vals[c.choose(nv)];}
    uint64_t x = o.e;
    o.res = rig_atomic(type, o.kind, o.function, o.a, &x);
    o.seen = x;
    uint64_t before = v;
    c.note("%s 0x%" PRIx64 ": %s", TYPES4[type], before, o.text().c_str());
    MC_CHECK(o.explains(v), "atomics:value", "%s on a %s holding 0x%" PRIx64, o.text().c_str(), TYPES4[type], before);
    uint64_t fin = rig_atomic_final(type);
    MC_CHECK(
      fin == v, "atomics:value", "%s on a %s holding 0x%" PRIx64 " left 0x%" PRIx64, o.text().c_str(), TYPES4[type], before,
      fin);
  }
  c.outcome(fmt("%d %" PRIx64 " %" PRIx64, type, start, v));
}

// ------------------------------------------------------------------ C35: independent use in parallel
// Every job works on its own objects (or only reads shared ones) and describes what it saw.
struct Shared
{
  rcutils_hash_map_t hm = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t sm = rcutils_get_zero_initialized_string_map();
  rcutils_array_list_t al = rcutils_get_zero_initialized_array_list();
  rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array();
};
Shared * shared;

struct Say
{
  std::string s;
  __attribute__((format(printf, 2, 3)))
  void operator()(const char * f, ...)
  {
    rt::Quiet q;
    va_list ap;
    va_start(ap, f);
    s += mc::vfmt(f, ap) + ";";
    va_end(ap);
  }
};
#define A0 rcutils_get_default_allocator()

void j_array_list(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  say("%d", rcutils_array_list_init(&l, 1, sizeof(int), &a));
  for (int i = 0; i < 3; ++i) {int x = v * 10 + i; say("%d", rcutils_array_list_add(&l, &x));}
  say("%d", rcutils_array_list_remove(&l, 1));
  say("%d", rcutils_array_list_set(&l, 9, &v));
  int y = 0;
  size_t n = 0;
  say("%d", rcutils_array_list_get(&l, 1, &y));
  say("%d", rcutils_array_list_get_size(&l, &n));
  say("%d %zu", y, n);
  say("%s", rcutils_get_error_string().str);
  rcutils_reset_error();
  say("%d", rcutils_array_list_fini(&l));
}
void j_hash_map(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  say("%d", rcutils_hash_map_init(&m, 2, sizeof(char *), sizeof(int), rcutils_hash_map_string_hash_func, rcutils_hash_map_string_cmp_func, &a));
  static const char * const ks[] = {"one", "two", "three"};
  for (int i = 0; i < 3; ++i) {
    const char * k = ks[i];
    int x = v * 100 + i;
    say("%d", rcutils_hash_map_set(&m, &k, &x));
  }
  const char * k = ks[1];
  say("%d", rcutils_hash_map_unset(&m, &k));
  const char * kk = nullptr;
  int d = 0;
  rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &kk, &d);
  while (r == RCUTILS_RET_OK) {
    say("%s=%d", kk, d);
    r = rcutils_hash_map_get_next_key_and_data(&m, &kk, &kk, &d);
  }
  say("%d %d", r, rcutils_hash_map_fini(&m));
}
void j_string_map(Say & say, int v)
{
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  say("%d", rcutils_string_map_init(&m, 0, A0));
  say("%d", rcutils_string_map_set(&m, "a", v ? "x" : "y"));
  say("%d", rcutils_string_map_set(&m, "b", "z"));
  say("%d", rcutils_string_map_unset(&m, "c"));
  say("%s", rcutils_get_error_string().str);
  rcutils_reset_error();
  say("%s %s", rcutils_string_map_get(&m, "a"), rcutils_string_map_getn(&m, "bb", 1));
  for (const char * k = rcutils_string_map_get_next_key(&m, nullptr); k; k = rcutils_string_map_get_next_key(&m, k)) {say("%s", k);}
  say("%d", rcutils_string_map_fini(&m));
}
void j_string_array(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  say("%d", rcutils_string_array_init(&s, 3, &a));
  s.data[0] = rcutils_strdup("m", a);
  s.data[1] = rcutils_strdup(v ? "a" : "z", a);
  say("%d", rcutils_string_array_sort(&s));
  say("%s %s", s.data[0], s.data[1]);
  say("%d", rcutils_string_array_resize(&s, 1));
  say("%s %zu", s.data[0], s.size);
  say("%d", rcutils_string_array_fini(&s));
}
void j_char_array(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  say("%d", rcutils_char_array_init(&c, 4, &a));
  say("%d", rcutils_char_array_strcpy(&c, v ? "left" : "right side"));
  say("%d", rcutils_char_array_strcat(&c, "+more"));
  say("%d", rcutils_char_array_strncat(&c, "0123456789", 3));
  say("%s %zu", c.buffer, c.buffer_length);
  say("%d", rcutils_char_array_memcpy(&c, "abc", 4));
  say("%s", c.buffer);
  say("%d", rcutils_char_array_fini(&c));
}
void j_uint8_array(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  rcutils_uint8_array_t u = rcutils_get_zero_initialized_uint8_array();
  say("%d", rcutils_uint8_array_init(&u, 4, &a));
  for (int i = 0; i < 4; ++i) {u.buffer[i] = (uint8_t)(v * 16 + i);}
  u.buffer_length = 4;
  say("%d", rcutils_uint8_array_resize(&u, 9));
  say("%d %d %zu", u.buffer[0], u.buffer[3], u.buffer_length);
  say("%d", rcutils_uint8_array_resize(&u, 0));
  rcutils_reset_error();
  say("%d", rcutils_uint8_array_fini(&u));
}
void j_split(Say & say, int v)
{
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  say("%d", rcutils_split(v ? "a/b//cc" : "x/yy", '/', A0, &s));
  for (size_t i = 0; i < s.size; ++i) {say("%s", s.data[i]);}
  say("%d", rcutils_string_array_fini(&s));
  say("%d", rcutils_split_last(v ? "a/b/c/" : "q", '/', A0, &s));
  for (size_t i = 0; i < s.size; ++i) {say("%s", s.data[i]);}
  say("%d", rcutils_string_array_fini(&s));
}
void j_find_repl(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  char * r = rcutils_repl_str(v ? "one two one" : "none", "one", "three", &a);
  say("%s", r);
  a.deallocate(r, a.state);
  say("%zu %zu", rcutils_find(v ? "a.b.c" : "abc", '.'), rcutils_find_last("a.b.c", '.'));
  say("%zu", rcutils_find_lastn("a.b.c", '.', (size_t)(v + 1)));
}
void j_format(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  char * f = rcutils_format_string(a, "%s and %d", v ? "this" : "that", v);
  say("%s", f);
  a.deallocate(f, a.state);
  f = rcutils_strdup(v ? "dup" : "other dup", a);
  say("%s", f);
  a.deallocate(f, a.state);
  f = rcutils_strndup("0123456789", (size_t)(3 + v), a);
  say("%s", f);
  a.deallocate(f, a.state);
  char b[8];
  say("%d", rcutils_snprintf(b, sizeof(b), "%d-%s", v, "longer than that"));
  say("%s", b);
}
void j_paths(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  char * p = rcutils_join_path(v ? "/usr" : "/opt/x", v ? "lib" : "y/z", a);
  say("%s", p);
  char * n = rcutils_to_native_path(p, a);
  say("%s", n);
  char * e = rcutils_expand_user(v ? "~/file" : "/no", a);
  say("%s", e);
  a.deallocate(p, a.state);
  a.deallocate(n, a.state);
  a.deallocate(e, a.state);
}
void j_time_strings(Say & say, int v)
{
  rcutils_time_point_value_t t = v ? 1234567890123456789 : -1500000000;
  char b[64];
  say("%d", rcutils_time_point_value_as_nanoseconds_string(&t, b, sizeof(b)));
  say("%s", b);
  say("%d", rcutils_time_point_value_as_seconds_string(&t, b, sizeof(b)));
  say("%s", b);
  say("%d", rcutils_time_point_value_as_date_string(&t, b, sizeof(b)));
  say("%s", b);
}
void j_clocks(Say & say, int)
{
  rcutils_time_point_value_t a = 0, b = 0;
  say("%d", rcutils_steady_time_now(&a));
  say("%d", rcutils_steady_time_now(&b));
  say("%d", b >= a && a > 0);
  rcutils_time_point_value_t s = 0;
  say("%d", rcutils_system_time_now(&s));
  say("%d", s > 1000000000000000000);
}
void j_sha(Say & say, int v)
{
  rcutils_sha256_ctx_t x;
  uint8_t h[RCUTILS_SHA256_BLOCK_SIZE];
  rcutils_sha256_init(&x);
  uint8_t m[70];
  for (int i = 0; i < 70; ++i) {m[i] = (uint8_t)(i * 3 + v);}
  rcutils_sha256_update(&x, m, 30);
  rcutils_sha256_update(&x, m + 30, 40);
  rcutils_sha256_final(&x, h);
  for (int i = 0; i < 32; i += 8) {say("%02x%02x", h[i], h[i + 5]);}
}
void j_strerror(Say & say, int v)
{
  char b[128];
  errno = v ? ENOENT : 98765;
  rcutils_strerror(b, sizeof(b));
  say("%s", b);
  errno = v ? EACCES : EINVAL;
  rcutils_strerror(b, 6);
  say("%s", b);
}
void j_env(Say & say, int v)
{
  const char * x = nullptr;
  say("%d", rcutils_get_env(v ? "HOME" : "MC_NOT_THERE", &x) == nullptr);
  say("%s", x);
  const char * h = rcutils_get_home_dir();
  say("%s", h ? h : "-");
}
void j_files(Say & say, int v)
{
  std::string p, q2;
  {rt::Quiet q; p = g_dir; q2 = g_dir + (v ? "/f1" : "/sub/f2");}
  say("%d %d", rcutils_is_directory(p.c_str()), rcutils_is_file(p.c_str()));
  say("%d %zu", rcutils_is_readable(q2.c_str()), rcutils_get_file_size(q2.c_str()));
  uint64_t n = 0;
  say("%d", rcutils_calculate_directory_size_with_recursion(p.c_str(), 0, &n, A0));
  say("%llu", (unsigned long long)n);
  int k = 0;
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(p.c_str(), A0);
  if (it) {
    do {++k;} while (rcutils_dir_iter_next(it));
    rcutils_dir_iter_end(it);
  }
  say("%d entries", k);
  char c[512];
  say("%d", rcutils_get_cwd(c, sizeof(c)));
}
int cmp_int(const void * a, const void * b) {return *(const int *)a - *(const int *)b;}
void j_sort_case(Say & say, int v)
{
  int r = 9;
  say("%d", rcutils_strcasecmp("AbC", v ? "abc" : "abd", &r));
  say("%d", r == 0);
  say("%d", rcutils_strncasecmp("ABx", "aby", (size_t)(2 + v), &r));
  say("%d", r == 0);
  int x[] = {3, v, 2, 9};
  say("%d", rcutils_qsort(x, 4, sizeof(int), cmp_int));
  say("%d%d%d%d", x[0], x[1], x[2], x[3]);
  say("%d%d", rcutils_isalnum_no_locale('a'), rcutils_isalnum_no_locale('_'));
}
void j_process(Say & say, int)
{
  say("%d", rcutils_get_pid() == getpid());
  rcutils_allocator_t a = A0;
  char * n = rcutils_get_executable_name(a);
  say("%s", n);
  a.deallocate(n, a.state);
}
void j_library(Say & say, int v)
{
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  say("%d", rcutils_load_shared_library(&l, v ? "libm.so.6" : "libdl.so.2", A0));
  say("%d %d", rcutils_has_symbol(&l, v ? "cos" : "dlopen"), rcutils_has_symbol(&l, "no_such_symbol_at_all"));
  rcutils_reset_error();
  say("%d", rcutils_unload_shared_library(&l));
  char b[64];
  say("%d", rcutils_get_platform_library_name(v ? "one" : "two", b, sizeof(b), false));
  say("%s", b);
  say("%d", rcutils_load_shared_library(&l, "no_such_library_at_all.so", A0));
  rcutils_reset_error();
}
void j_errors(Say & say, int v)
{
  rig_set_error(v ? "mine" : "yours");
  say("%d %s", rcutils_error_is_set(), rcutils_get_error_string().str);
  rig_set_error_fmt(v, "x");
  say("%s", rcutils_get_error_string().str);
  rcutils_reset_error();
  say("%s", rcutils_get_error_string().str);
}
void j_severity(Say & say, int v)
{
  int s = -7;
  say("%d", rcutils_logging_severity_level_from_string(v ? "Debug" : "fatal", A0, &s));
  say("%d", s);
  say("%d", rcutils_logging_severity_level_from_string("nope", A0, &s));
  rcutils_reset_error();
}
void j_cmdline(Say & say, int v)
{
  static char * argv[] = {(char *)"prog", (char *)"--one", (char *)"1", (char *)"--two", (char *)"2"};
  say("%d", rcutils_cli_option_exist(argv, argv + 5, v ? "--one" : "--zwei"));
  char * g = rcutils_cli_get_option(argv, argv + 5, v ? "--two" : "--one");
  say("%s", g ? g : "-");
}
void j_allocator(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  say("%d", rcutils_allocator_is_valid(&a));
  char * p = (char *)a.allocate(16, a.state);
  for (int i = 0; i < 16; ++i) {p[i] = (char)('a' + v);}
  p = (char *)a.reallocate(p, 64, a.state);
  say("%c%c", p[0], p[15]);
  p = (char *)rcutils_reallocf(p, 32, &a);
  say("%c", p[7]);
  a.deallocate(p, a.state);
  int * z = (int *)a.zero_allocate(4, sizeof(int), a.state);
  say("%d", z[3]);
  a.deallocate(z, a.state);
}
void j_read_shared(Say & say, int v)
{
  const char * k = v ? "alpha" : "beta";
  int d = 0;
  say("%d", rcutils_hash_map_get(&shared->hm, &k, &d));
  say("%d %d", d, rcutils_hash_map_key_exists(&shared->hm, &k));
  const char * nk = nullptr;
  say("%d", rcutils_hash_map_get_next_key_and_data(&shared->hm, nullptr, &nk, &d));
  say("%s %d", nk, d);
  say("%s", rcutils_string_map_get(&shared->sm, k));
  const char * n1 = rcutils_string_map_get_next_key(&shared->sm, nullptr);
  say("%s", n1);
  int x = 0;
  size_t n = 0;
  say("%d", rcutils_array_list_get(&shared->al, (size_t)v, &x));
  say("%d", rcutils_array_list_get_size(&shared->al, &n));
  say("%d %zu", x, n);
  int res = 0;
  say("%d", rcutils_string_array_cmp(&shared->sa, &shared->sa, &res));
  say("%d", res);
}
void j_format_message(Say & say, int v)
{
  rcutils_allocator_t a = A0;
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  say("%d", rcutils_char_array_init(&c, 8, &a));
  rcutils_log_location_t l = {"fn", v ? "one.c" : "two.c", (size_t)(v + 7)};
  say("%d", rcutils_logging_format_message(&l, v ? RCUTILS_LOG_SEVERITY_WARN : RCUTILS_LOG_SEVERITY_INFO, "nm", 5, v ? "text" : "other", &c));
  say("%s", c.buffer);
  say("%d", rcutils_char_array_fini(&c));
}
void j_levels(Say & say, int v)
{
  say("%d", rcutils_logging_get_logger_effective_level(v ? "a.b.c" : "a.x"));
  say("%d", rcutils_logging_get_logger_level(v ? "a.b" : "nobody"));
  say("%d", rcutils_logging_get_default_logger_level());
  say("%d", rcutils_logging_logger_is_enabled_for(v ? "a" : "a.b.c.d", RCUTILS_LOG_SEVERITY_INFO));
  say("%d", rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler);
}
void j_log(Say & say, int v)
{
  static const rcutils_log_location_t l0 = {"f0", "a.c", 1}, l1 = {"f1", "b.c", 2};
  rcutils_log(v ? &l1 : &l0, RCUTILS_LOG_SEVERITY_ERROR, v ? "a.b" : "other", "call %d%s", v, v ? " with more" : "");
  rig_log_named(v ? "a.x" : "nm", v);
  rig_log_debug(v);
  rig_log_expr(v + 1);
  rcutils_log(nullptr, RCUTILS_LOG_SEVERITY_FATAL, nullptr, "no name %d", v);
  say("done %d", v);
}
void j_log_long(Say & say, int v)
{
  static const rcutils_log_location_t l0 = {"f0", "a.c", 1};
  std::string m;
  {rt::Quiet q; m = std::string(1500, v ? 'v' : 'w');}
  rcutils_log(&l0, RCUTILS_LOG_SEVERITY_WARN, "long", "%s.", m.c_str());
  say("done %d", v);
}
void j_zero(Say & say, int)
{
  rcutils_array_list_t a = rcutils_get_zero_initialized_array_list();
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t s = rcutils_get_zero_initialized_string_map();
  rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
  rcutils_char_array_t c = rcutils_get_zero_initialized_char_array();
  rcutils_uint8_array_t u = rcutils_get_zero_initialized_uint8_array();
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
  say(
    "%d%d%d%d%d%d%d%d", a.impl == nullptr, h.impl == nullptr, s.impl == nullptr, t.data == nullptr,
    c.buffer == nullptr, u.buffer == nullptr, l.library_path == nullptr, z.allocate == nullptr);
}
void j_wrong_args(Say & say, int v)
{
  // error paths of many functions
  rcutils_allocator_t a = A0;
  say("%d", rcutils_hash_map_init(nullptr, 1, 1, 1, nullptr, nullptr, &a));
  rcutils_reset_error();
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  say("%d", rcutils_string_map_reserve(&m, (size_t)v));
  rcutils_reset_error();
  say("%d", rcutils_char_array_init(nullptr, 1, &a));
  rcutils_reset_error();
  say("%d", rcutils_system_time_now(nullptr));
  rcutils_reset_error();
  say("%d", rcutils_logging_set_logger_level(nullptr, 10));
  rcutils_reset_error();
  uint64_t n = 0;
  say("%d", rcutils_calculate_directory_size("/no/such/dir", &n, a));
  rcutils_reset_error();
  say("%d", rcutils_load_shared_library(nullptr, "x", a));
  rcutils_reset_error();
  say("%d", rcutils_qsort(nullptr, 2, 4, cmp_int));
  rcutils_reset_error();
  rcutils_reset_error();
}

struct Job
{
  const char * name;
  void (* f)(Say &, int);
  bool heavy;
};
const Job jobs[] = {
  {"array_list", j_array_list, false},
  {"hash_map", j_hash_map, false},
  {"string_map", j_string_map, false},
  {"string_array", j_string_array, false},
  {"char_array", j_char_array, false},
  {"uint8_array", j_uint8_array, false},
  {"split", j_split, false},
  {"find and replace", j_find_repl, false},
  {"format and duplicate", j_format, false},
  {"paths", j_paths, false},
  {"time strings", j_time_strings, false},
  {"clocks", j_clocks, false},
  {"sha256", j_sha, false},
  {"strerror", j_strerror, false},
  {"environment", j_env, false},
  {"files", j_files, false},
  {"sort and compare", j_sort_case, false},
  {"process", j_process, false},
  {"shared library", j_library, false},
  {"errors", j_errors, false},
  {"severity strings", j_severity, false},
  {"command line", j_cmdline, false},
  {"allocator", j_allocator, false},
  {"shared containers, read only", j_read_shared, false},
  {"format_message", j_format_message, false},
  {"logger levels, read only", j_levels, true},
  {"log", j_log, true},
  {"log long messages", j_log_long, true},
  {"zero initialized", j_zero, false},
  {"wrong arguments", j_wrong_args, false},
};
const int NJOBS = (int)(sizeof(jobs) / sizeof(jobs[0]));

struct Solo {std::string said; std::vector<std::string> out[3];};
bool is_log(int j) {return !strncmp(jobs[j].name, "log", 3) && jobs[j].name[3] != 'g';}

// what each job says when running alone, once per process
const Solo & solo(mc::Ctx & c, int job, int v)
{
  static std::map<std::pair<int, int>, Solo> cache;
  auto it = cache.find({job, v});
  if (it != cache.end()) {return it->second;}
  Solo s;
  Say say;
  rt::Options o;
  o.preemptions = 0;
  snap_restore();
  rt::Report r = rt::run(c, {[&] {jobs[job].f(say, v);}}, o);
  s.said = say.s;
  for (auto & x : r.out) {s.out[x.fd].push_back(x.text);}
  return cache[{job, v}] = s;
}
std::string joined(const std::vector<std::string> & v)
{
  std::string s;
  for (auto & x : v) {s += x;}
  return s;
}
// is t a merge of whole lines of the given per-thread texts, each in its own order?
bool merge_of(const std::string & t, const std::vector<std::string> & parts)
{
  std::vector<std::string> lines;
  std::vector<std::vector<std::string>> p;
  auto split = [](const std::string & s) {
      std::vector<std::string> l;
      size_t i = 0;
      while (i < s.size()) {
        size_t e = s.find('\n', i);
        if (e == std::string::npos) {e = s.size() - 1;}
        l.push_back(s.substr(i, e - i + 1));
        i = e + 1;
      }
      return l;
    };
  lines = split(t);
  for (auto & x : parts) {p.push_back(split(x));}
  std::set<std::vector<size_t>> cur = {std::vector<size_t>(p.size(), 0)};
  for (auto & l : lines) {
    std::set<std::vector<size_t>> nx;
    for (auto & st : cur) {
      for (size_t k = 0; k < p.size(); ++k) {
        if (st[k] < p[k].size() && p[k][st[k]] == l) {
          auto n = st;
          n[k]++;
          nx.insert(n);
        }
      }
    }
    cur = nx;
    if (cur.empty()) {return false;}
  }
  for (auto & st : cur) {
    bool all = true;
    for (size_t k = 0; k < p.size(); ++k) {all = all && st[k] == p[k].size();}
    if (all) {return true;}
  }
  return false;
}

void parallel(mc::Ctx & c, const std::vector<int> & js, int bound)
{
  std::vector<const Solo *> alone;
  std::vector<Say> say(js.size());
  std::vector<std::function<void()>> b;
  for (size_t i = 0; i < js.size(); ++i) {
    int j = js[i], v = (int)(i & 1);
    alone.push_back(&solo(c, j, v));
    Say * s = &say[i];
    b.push_back([j, v, s] {jobs[j].f(*s, v);});
    c.note("thread %zu: %s", i, jobs[j].name);
  }
  rt::Options o;
  o.preemptions = bound;
  rt::Report r = go(c, b, o, "parallel");
  for (size_t i = 0; i < js.size(); ++i) {
    if (say[i].s != alone[i]->said) {
      size_t k = 0;
      while (k < say[i].s.size() && k < alone[i]->said.size() && say[i].s[k] == alone[i]->said[k]) {++k;}
      k = k > 30 ? k - 30 : 0;
      mc::fail(
        "parallel:result", "thread %zu (%s) gets %s where it gets %s when running alone", i, jobs[js[i]].name,
        mc::q(say[i].s.substr(k, 80)).c_str(), mc::q(alone[i]->said.substr(k, 80)).c_str());
    }
  }
  for (int fd = 1; fd <= 2; ++fd) {
    std::string t;
    for (auto & x : r.out) {if (x.fd == fd) {t += x.text;}}
    std::vector<std::string> parts;
    for (auto * a : alone) {parts.push_back(joined(a->out[fd]));}
    MC_CHECK(
      merge_of(t, parts), "parallel:output",
      "the text on stream %d is not made of the complete lines each thread writes when running alone: %s", fd,
      mc::q(t.data(), t.size(), 400).c_str());
  }
  std::string order;
  for (auto & x : r.out) {order += (char)('0' + x.thread);}
  c.outcome(fmt("%zu:%s", js.size(), order.c_str()));
}

void setup()
{
  const std::string P = mc::cfg().prop;
  bool th = mc::cfg().thorough;
  if (P == "C22") {
    mc::dfs("errors 2x2", [=](mc::Ctx & c) {errors(c, {2, 2}, th ? 3 : 2, 5);}, 32, 4);
    mc::dfs("errors 2x3", [=](mc::Ctx & c) {errors(c, {3, 3}, th ? 2 : 1, th ? 4 : 3);}, 32, 6);
    mc::dfs("errors 3x1", [=](mc::Ctx & c) {errors(c, {1, 1, 1}, th ? 3 : 2, 4);}, 32, 3);
  }
  if (P == "C23") {
    for (int len = 1; len <= (th ? 8 : 6); ++len) {
      mc::dfs(fmt("faults 1x%d", len), [=](mc::Ctx & c) {faults(c, 1, len, 0, false);}, 1);
    }
    mc::dfs("faults 2x2", [=](mc::Ctx & c) {faults(c, 2, 2, 99, false);}, 8, 2);
    mc::dfs("faults 2x3", [=](mc::Ctx & c) {faults(c, 2, 3, th ? 99 : 6, false);}, 16, 2);
    mc::dfs("faults 3x1", [=](mc::Ctx & c) {faults(c, 3, 1, 99, false);}, 8, 2);
    mc::dfs("faults 3x2", [=](mc::Ctx & c) {faults(c, 3, 2, th ? 5 : 3, false);}, 16, 2);
    mc::dfs("mixed 1x4", [=](mc::Ctx & c) {faults(c, 1, th ? 5 : 4, 0, true);}, 4, 3);
    mc::dfs("mixed 2x2", [=](mc::Ctx & c) {faults(c, 2, 2, 99, true);}, 16, 4);
    mc::dfs("mixed 2x3", [=](mc::Ctx & c) {faults(c, 2, 3, th ? 3 : 1, true);}, 16, 4);
    mc::dfs("mixed 3x1", [=](mc::Ctx & c) {faults(c, 3, 1, 99, true);}, 8, 4);
    if (th) {
      mc::dfs("faults 2x4", [=](mc::Ctx & c) {faults(c, 2, 4, 6, false);}, 32, 2);
      mc::dfs("faults 4x1", [=](mc::Ctx & c) {faults(c, 4, 1, 99, false);}, 16, 2);
    }
  }
  if (P == "C41") {
    mc::dfs("atomics one thread", [=](mc::Ctx & c) {atomics_sequential(c, th ? 3 : 2);}, 16, 2);
    mc::dfs("atomics 2x1", [=](mc::Ctx & c) {atomics(c, {1, 1}, 6);}, 16, 3);
    mc::dfs("atomics 2x2", [=](mc::Ctx & c) {atomics(c, {2, 2}, th ? 3 : 2);}, 32, 4);
    mc::dfs("atomics 3x1", [=](mc::Ctx & c) {atomics(c, {1, 1, 1}, th ? 4 : 2);}, 32, 4);
    mc::dfs("publishing", [=](mc::Ctx & c) {publishing(c, 1);}, 4, 2);
    mc::dfs("publishing to two", [=](mc::Ctx & c) {publishing(c, 2);}, 8, 2);
  }
  if (P == "C35") {
    mc::dfs(
      "pairs", [=](mc::Ctx & c) {
        int a = c.choose(NJOBS), b = c.choose(NJOBS);
        parallel(c, {a, b}, th ? 2 : 1);
      }, 32, 2);
    // the same job twice, and the logging functions among themselves, more deeply
    mc::dfs(
      "same job", [=](mc::Ctx & c) {
        int a = c.choose(NJOBS);
        parallel(c, {a, a}, jobs[a].heavy ? (th ? 3 : 2) : (th ? 3 : 2));
      }, 16, 1);
    mc::dfs(
      "triples", [=](mc::Ctx & c) {
        static const int t[] = {1, 10, 19, 24, 25, 26};
        int a = c.pick(t), b = c.pick(t), d = c.pick(t);
        parallel(c, {a, b, d}, 1);
      }, 16, 3);
  }
}

void worker_init()
{
  unsetenv("RCUTILS_LOGGING_USE_STDOUT");
  setenv("RCUTILS_COLORIZED_OUTPUT", "0", 1);
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "[{severity}] [{name}] {message} ({function_name} {file_name}) {{x}", 1);
  setenv("HOME", "/home/of the checker", 1);
  setenv("TZ", "UTC", 1);
  tzset();
  g_dir = fmt("/tmp/mc-interleave-%d", (int)getpid());
  if (!mc::cfg().out.empty()) {g_dir = mc::cfg().out + fmt("/tree-%d", (int)getpid());}
  mkdir(g_dir.c_str(), 0755);
  mkdir((g_dir + "/sub").c_str(), 0755);
  for (const char * f : {"/f1", "/sub/f2"}) {
    FILE * o = fopen((g_dir + f).c_str(), "w");
    if (!o) {abort();}
    fprintf(o, "content of %s", f);
    fclose(o);
  }
  if (rcutils_logging_initialize() != RCUTILS_RET_OK) {abort();}
  rcutils_logging_set_default_logger_level(RCUTILS_LOG_SEVERITY_INFO);
  if (
    rcutils_logging_set_logger_level("a", RCUTILS_LOG_SEVERITY_WARN) ||
    rcutils_logging_set_logger_level("a.b", RCUTILS_LOG_SEVERITY_ERROR)) {abort();}
  rcutils_allocator_t al = A0;
  static Shared s;
  shared = &s;
  if (
    rcutils_hash_map_init(&s.hm, 2, sizeof(char *), sizeof(int), rcutils_hash_map_string_hash_func, rcutils_hash_map_string_cmp_func, &al) ||
    rcutils_string_map_init(&s.sm, 2, al) || rcutils_array_list_init(&s.al, 2, sizeof(int), &al) ||
    rcutils_string_array_init(&s.sa, 2, &al)) {abort();}
  static const char * const ks[] = {"alpha", "beta"};
  for (int i = 0; i < 2; ++i) {
    const char * k = ks[i];
    int v = i + 40;
    if (
      rcutils_hash_map_set(&s.hm, &k, &v) || rcutils_string_map_set(&s.sm, k, i ? "B" : "A") ||
      rcutils_array_list_add(&s.al, &v)) {abort();}
    s.sa.data[i] = rcutils_strdup(k, al);
  }
  rcutils_reset_error();
  // any lazy initialization of the C library happens before the threads
  rcutils_time_point_value_t t = 0;
  char b[64];
  (void)!rcutils_time_point_value_as_date_string(&t, b, sizeof(b));
  rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
  if (rcutils_load_shared_library(&l, "libm.so.6", al) == RCUTILS_RET_OK) {(void)!rcutils_unload_shared_library(&l);}
  rcutils_reset_error();
  snap_take();
}
}  // namespace

int main(int argc, char ** argv) {return mc::main_(argc, argv, setup, worker_init);}
