// C25-C31: logging.
#include <sys/stat.h>
#include <limits.h>
#include <algorithm>
#include "lib.hpp"
#include "logging_rig.hpp"
#include "rcutils/logging.h"
#include "rcutils/time.h"
#include "rcutils/types/char_array.h"

using mc::fmt;
using mc::q;

// ------------------------------------------------------------------ interposed libc
namespace os
{
bool clock_on = false;
int clock_ret = 0;
int64_t clock_ns = 0;
bool streams = false;         // fileno and isatty answer for the captured streams
FILE * fo = nullptr;
FILE * fe = nullptr;
int tty[3] = {0, 0, 0};
bool setvbuf_fails = false;
}  // namespace os
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
  if (!os::clock_on) {return __real_clock_gettime(id, ts);}
  if (os::clock_ret < 0) {errno = EINVAL; return os::clock_ret;}
  ts->tv_sec = (time_t)(os::clock_ns / 1000000000);
  ts->tv_nsec = (long)(os::clock_ns % 1000000000);
  return 0;
}
int __real_fileno(FILE *);
int __wrap_fileno(FILE * f)
{
  if (os::streams && f == os::fo) {return 1;}
  if (os::streams && f == os::fe) {return 2;}
  return __real_fileno(f);
}
int __real_isatty(int);
int __wrap_isatty(int fd)
{
  if (os::streams) {
    if (fd >= 0 && fd < 3 && os::tty[fd]) {return 1;}
    errno = ENOTTY;
    return 0;
  }
  return __real_isatty(fd);
}
int __real_setvbuf(FILE *, char *, int, size_t);
int __wrap_setvbuf(FILE * f, char * b, int m, size_t n)
{
  if (os::setvbuf_fails) {errno = EINVAL; return -1;}
  return __real_setvbuf(f, b, m, n);
}
extern char __start_rcudata[] __attribute__((weak)), __stop_rcudata[] __attribute__((weak));
extern char __start_rcubss[] __attribute__((weak)), __stop_rcubss[] __attribute__((weak));
}

namespace
{
// ------------------------------------------------------------------ initial state of the library
struct Snap {char * a; size_t n; char * copy;};
std::vector<Snap> snaps;
__attribute__((no_sanitize("address"), noinline))
void raw_copy(volatile char * to, const volatile char * from, size_t n)
{
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {*(volatile uint64_t *)(to + i) = *(const volatile uint64_t *)(from + i);}
  for (; i < n; ++i) {to[i] = from[i];}
}
void snap_take()
{
  auto one = [](char * a, char * b) {
      if (!a || b <= a) {return;}
      Snap s{a, (size_t)(b - a), (char *)__real_malloc((size_t)(b - a))};
      raw_copy(s.copy, s.a, s.n);
      snaps.push_back(s);
    };
  one(__start_rcudata, __stop_rcudata);
  one(__start_rcubss, __stop_rcubss);
}
void snap_restore() {for (auto & s : snaps) {raw_copy(s.a, s.copy, s.n);}}
__attribute__((no_sanitize("address"), noinline))
void snap_diff(std::vector<uint64_t> & out)
{
  uint64_t off = 0;
  for (auto & s : snaps) {
    for (size_t i = 0; i + 8 <= s.n; i += 8) {
      uint64_t a = *(const volatile uint64_t *)(s.a + i), b = *(const volatile uint64_t *)(s.copy + i);
      if (a != b) {out.push_back(off + i); out.push_back(a);}
    }
    off += 1 << 24;
  }
}

// ------------------------------------------------------------------ captured output streams
struct Rec
{
  int handler;
  const rcutils_log_location_t * loc;
  std::string fn, file;
  size_t line;
  int sev;
  bool null_name;
  std::string name;
  int64_t ts;
  std::string text;
};
std::vector<Rec> recs;
void record(
  int h, const rcutils_log_location_t * loc, int sev, const char * name, rcutils_time_point_value_t ts,
  const char * format, va_list * args)
{
  Rec r;
  r.handler = h;
  r.loc = loc;
  r.line = 0;
  if (loc) {r.fn = loc->function_name; r.file = loc->file_name; r.line = loc->line_number;}
  r.sev = sev;
  r.null_name = name == nullptr;
  r.name = name ? name : "";
  r.ts = ts;
  char b[512];
  va_list ap;
  va_copy(ap, *args);
  vsnprintf(b, sizeof b, format, ap);
  va_end(ap);
  r.text = b;
  recs.push_back(r);
}
void h1(
  const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a)
{
  record(1, l, s, n, t, f, a);
}
void h2(
  const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a)
{
  record(2, l, s, n, t, f, a);
}

const char * const VARS[] = {"RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM",
  "RCUTILS_COLORIZED_OUTPUT", "RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED", "RCUTILS_CONSOLE_OUTPUT_FORMAT"};

// One execution: pristine library state, empty environment, captured streams, own allocator.
struct Log : Env
{
  std::string out, err;
  FILE * so = stdout, * se = stderr;
  explicit Log(const char * n)
  : Env(n)
  {
    snap_restore();
    recs.clear();
    for (auto v : VARS) {unsetenv(v);}
    os::fo = cookie(&out);
    os::fe = cookie(&err);
    os::tty[0] = os::tty[1] = os::tty[2] = 0;
    os::setvbuf_fails = false;
    os::clock_ret = 0;
    os::clock_ns = 1700000000123456789;
    fflush(stdout);
    fflush(stderr);
    stdout = os::fo;
    stderr = os::fe;
    os::streams = true;
    os::clock_on = true;
  }
  ~Log()
  {
    os::clock_on = false;
    os::streams = false;
    stdout = so;
    stderr = se;
    fclose(os::fo);
    fclose(os::fe);
    os::fo = os::fe = nullptr;
    rcutils_reset_error();
  }
  static FILE * cookie(std::string * s)
  {
    cookie_io_functions_t io = {};
    io.write = [](void * c, const char * b, size_t n) -> ssize_t {((std::string *)c)->append(b, n); return (ssize_t)n;};
    return fopencookie(s, "w", io);
  }
  void flush() {fflush(os::fo); fflush(os::fe);}
  void drop() {flush(); out.clear(); err.clear();}
  rcutils_ret_t init()
  {
    rcutils_ret_t r = rcutils_logging_initialize_with_allocator(A);
    return r;
  }
  void up()
  {
    rcutils_ret_t r = init();
    MC_CHECK(r == RCUTILS_RET_OK, K("init").c_str(), "initialization returned %d: %s", r, rcutils_get_error_string().str);
  }
  void down()
  {
    rcutils_ret_t r = rcutils_logging_shutdown();
    MC_CHECK(r == RCUTILS_RET_OK, K("shutdown").c_str(), "shutdown returned %d", r);
  }
};

const int SEV[] = {RCUTILS_LOG_SEVERITY_DEBUG, RCUTILS_LOG_SEVERITY_INFO, RCUTILS_LOG_SEVERITY_WARN,
  RCUTILS_LOG_SEVERITY_ERROR, RCUTILS_LOG_SEVERITY_FATAL};
std::string sev_name(int s)
{
  switch (s) {
    case 0: return "UNSET";
    case 10: return "DEBUG";
    case 20: return "INFO";
    case 30: return "WARN";
    case 40: return "ERROR";
    case 50: return "FATAL";
  }
  return "?";
}

// ------------------------------------------------------------------ reference of the output format
std::string seconds(int64_t t)
{
  __int128 v = t;
  unsigned __int128 a = (unsigned __int128)(v < 0 ? -v : v);
  return (v < 0 ? "-" : "") + fmt("%010llu.%09llu", (unsigned long long)(a / 1000000000u),
    (unsigned long long)(a % 1000000000u));
}
std::string nanoseconds(int64_t t)
{
  __int128 v = t;
  unsigned __int128 a = (unsigned __int128)(v < 0 ? -v : v);
  return (v < 0 ? "-" : "") + fmt("%019llu", (unsigned long long)a);
}
std::string date(int64_t t)
{
  time_t s = (time_t)(t / 1000000000);
  struct tm tm;
  gmtime_r(&s, &tm);            // TZ is UTC here
  char b[64];
  strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
  return std::string(b) + fmt(".%03d", (int)(t % 1000000000 / 1000000));
}
struct In
{
  const rcutils_log_location_t * loc;
  int sev;
  const char * name;
  int64_t ts;
  std::string msg;
};
std::string decode(const std::string & f)
{
  std::string o;
  for (size_t i = 0; i < f.size(); ) {
    if (f[i] != '\\') {o += f[i++]; continue;}
    static const char from[] = "abnrt", to[] = "\a\b\n\r\t";
    const char * p = i + 1 < f.size() ? strchr(from, f[i + 1]) : nullptr;
    if (f.compare(i + 1, 3, "x1b") == 0) {
      o += '\x1b';
      i += 4;
    } else if (p && *p) {
      o += to[p - from];
      i += 2;
    } else {
      o += f.substr(i, 2);
      i += 2;
    }
  }
  return o;
}
bool token(const std::string & t, const In & in, std::string & v)
{
  if (t == "severity") {v = sev_name(in.sev);} else if (t == "name") {v = in.name ? in.name : "";} else if (
    t == "message") {v = in.msg;} else if (t == "function_name") {v = in.loc ? in.loc->function_name : "";} else if (
    t == "file_name") {v = in.loc ? in.loc->file_name : "";} else if (t == "time") {v = seconds(in.ts);} else if (
    t == "date_time_with_ms") {v = date(in.ts);} else if (t == "time_as_nanoseconds") {v = nanoseconds(in.ts);} else if (
    t == "line_number") {v = in.loc ? fmt("%zu", in.loc->line_number).substr(0, 9) : "";} else {return false;}
  return true;
}
const char DEFAULT[] = "[{severity}] [{time}] [{name}]: {message}";
std::string expand(std::string f, const In & in)
{
  if (f.empty()) {f = DEFAULT;}
  f = decode(f.substr(0, 2047));
  std::string o;
  for (size_t i = 0; i < f.size(); ) {
    if (f[i] == '{') {
      size_t e = f.find('}', i);
      std::string v;
      if (e != std::string::npos && token(f.substr(i + 1, e - i - 1), in, v)) {
        o += v;
        i = e + 1;
        continue;
      }
    }
    o += f[i++];
  }
  return o;
}

// ------------------------------------------------------------------ C25 levels
std::vector<std::string> ancestors(const std::string & n)
{
  std::vector<std::string> v;
  std::string s = n;
  size_t p;
  while ((p = s.rfind('.')) != std::string::npos) {
    s.resize(p);
    v.push_back(s);
  }
  return v;
}
struct Levels
{
  std::map<std::string, int> lv;
  int def = RCUTILS_DEFAULT_LOGGER_DEFAULT_LEVEL;
  int own(const std::string & n) const
  {
    if (n.empty()) {return def;}
    auto it = lv.find(n);
    return it == lv.end() ? 0 : it->second;
  }
  int effective(const std::string & n) const
  {
    auto it = lv.find(n);
    if (it != lv.end() && it->second) {return it->second;}
    for (auto & a : ancestors(n)) {
      it = lv.find(a);
      if (it != lv.end() && it->second) {return it->second;}
    }
    return def;
  }
};
void check_levels(Log & L, const Levels & m, const std::vector<std::string> & names, bool full)
{
  MC_CHECK(
    rcutils_logging_get_default_logger_level() == m.def, L.K("default").c_str(), "the default level is %d, expected %d",
    rcutils_logging_get_default_logger_level(), m.def);
  for (auto & n : names) {
    Exact e(n);
    int own = rcutils_logging_get_logger_level(e.p);
    MC_CHECK(own == m.own(n), L.K("own").c_str(), "the level of %s is %d, expected %d", q(n).c_str(), own, m.own(n));
    int want = m.effective(n);
    for (int k = 0; k < 2; ++k) {
      int eff = rcutils_logging_get_logger_effective_level(e.p);
      MC_CHECK(
        eff == want, L.K("effective").c_str(), "the effective level of %s is %d, expected %d", q(n).c_str(), eff, want);
    }
    for (int s : {0, 10, 20, 25, 30, 40, 50, want - 1, want, want + 1}) {
      bool en = rcutils_logging_logger_is_enabled_for(e.p, s);
      MC_CHECK(
        en == (s >= want), L.K("enabled").c_str(), "%s with effective level %d is %s for severity %d", q(n).c_str(), want,
        en ? "enabled" : "disabled", s);
    }
    if (full) {
      for (size_t k = 0; k <= n.size(); ++k) {
        Exact e2((n.substr(0, k) + 'z').data(), k + 1);       // not terminated within its length
        int l = rcutils_logging_get_logger_leveln(e2.p, k);
        MC_CHECK(
          l == m.own(n.substr(0, k)), L.K("own").c_str(), "the level of the first %zu characters of %s is %d, expected %d",
          k, q(n).c_str(), l, m.own(n.substr(0, k)));
      }
    }
  }
  for (int s : {0, 10, 20, 30, 40, 50}) {
    MC_CHECK(
      rcutils_logging_logger_is_enabled_for(nullptr, s) == (s >= m.def), L.K("enabled").c_str(),
      "the nameless logger is wrongly %s for severity %d", s >= m.def ? "disabled" : "enabled", s);
  }
  rcutils_reset_error();
}
struct LevelMachine : mc::Machine
{
  struct Op {int kind; std::string name; int level;};    // 0 set 1 default 2 lookup 3 enabled 4 leveln
  std::vector<std::string> names, all;
  int prefill;
  std::vector<Op> ops;
  std::unique_ptr<Log> L;
  Levels m;
  bool up = false;
  LevelMachine(std::vector<std::string> n, int pre, std::vector<int> levels)
  : names(n), prefill(pre)
  {
    all = n;
    for (auto x : {"a.b.c.d", "A", "a.bb", "ab.c", ".", "..", "c", "a.b.", "a..b.c"}) {
      if (std::find(all.begin(), all.end(), x) == all.end()) {all.push_back(x);}
    }
    for (auto & s : n) {
      for (int l : levels) {if (!(s.empty() && l == 0)) {ops.push_back(Op{0, s, l});}}
    }
    for (int l : {0, 10, 40, 60}) {ops.push_back(Op{1, "", l});}
    for (int l : {-1, 7, 60, INT_MAX, INT_MIN}) {ops.push_back(Op{0, n.back(), l});}
    ops.push_back(Op{5, "", 20});
    ops.push_back(Op{2, n[0], 0});
    ops.push_back(Op{2, n.back(), 0});
    ops.push_back(Op{2, "a.b.c.d", 0});
    ops.push_back(Op{3, n.back(), 30});
    ops.push_back(Op{4, n.back(), 0});
  }
  void start() override
  {
    L.reset(new Log("levels"));
    L->up();
    for (int i = 0; i < prefill; ++i) {
      std::string s = fmt("n%d", i);
      if (rcutils_logging_set_logger_level(ro(s), 10 + 10 * (i % 5)) != RCUTILS_RET_OK) {
        mc::fail("levels:set", "setting a level failed");
      }
      m.lv[s] = 10 + 10 * (i % 5);
      all.push_back(s);
    }
  }
  int nops() override {return (int)ops.size();}
  int alternatives() override {return 2;}
  void arm(int k) override
  {
    if (k == 0) {L->T.plan(0, 0);} else {L->T.plan((k + 1) / 2, k % 2 ? (k + 1) / 2 : 1 << 30);}
  }
  int disarm() override
  {
    int n = L->T.calls;
    L->T.plan(0, 0);
    return n;
  }
  std::string opname(int o) override
  {
    const Op & p = ops[(size_t)o];
    switch (p.kind) {
      case 0: return fmt("set_logger_level(%s, %d)", q(p.name).c_str(), p.level);
      case 1: return fmt("set_default_logger_level(%d)", p.level);
      case 2: return fmt("get_logger_effective_level(%s)", q(p.name).c_str());
      case 3: return fmt("logger_is_enabled_for(%s, %d)", q(p.name).c_str(), p.level);
      case 4: return fmt("get_logger_level(%s)", q(p.name).c_str());
      default: return "set_logger_level(NULL, 20)";
    }
  }
  void apply(int o) override
  {
    const Op & p = ops[(size_t)o];
    Exact e(p.name);
    rcutils_reset_error();
    if (p.kind == 0 || p.kind == 5) {
      bool valid = p.kind == 0 && p.level >= 0 && p.level <= 50 && p.level % 10 == 0;
      rcutils_ret_t r = rcutils_logging_set_logger_level(p.kind == 5 ? nullptr : e.p, p.level);
      if (!valid) {
        MC_CHECK(
          r == RCUTILS_RET_INVALID_ARGUMENT, "levels:invalid", "an invalid level or name was answered with %d", r);
      } else if (!L->T.failed) {
        MC_CHECK(r == RCUTILS_RET_OK, "levels:set", "set_logger_level returned %d", r);
      }
      // growing the map of levels may fail without consequences but the message
      MC_CHECK(
        rcutils_error_is_set() == (r != RCUTILS_RET_OK) || (L->T.failed && r == RCUTILS_RET_OK), "levels:error",
        "the error state does not match result %d", r);
      if (r == RCUTILS_RET_OK) {
        m.lv[p.name] = p.level;
        if (p.name.empty()) {m.def = p.level;}
      } else if (valid && p.name.empty()) {
        int d = rcutils_logging_get_default_logger_level();
        MC_CHECK(d == m.def || d == p.level, "levels:default", "a failed change left default level %d", d);
        m.def = d;
      }
    } else if (p.kind == 1) {
      rcutils_logging_set_default_logger_level(p.level);
      m.def = p.level == 0 ? RCUTILS_DEFAULT_LOGGER_DEFAULT_LEVEL : p.level;
    } else {
      bool bad = L->T.fail_from != 0;
      int v, want;
      if (p.kind == 2) {
        v = rcutils_logging_get_logger_effective_level(e.p);
        want = m.effective(p.name);
        if (v == -1 && L->T.failed && bad) {v = want;}
      } else if (p.kind == 3) {
        v = rcutils_logging_logger_is_enabled_for(e.p, p.level);
        want = p.level >= m.effective(p.name);
        if (!v && L->T.failed && bad) {v = want;}
      } else {
        v = rcutils_logging_get_logger_level(e.p);
        want = m.own(p.name);
        if (v == -1 && L->T.failed && bad) {v = want;}
      }
      MC_CHECK(v == want, "levels:lookup", "%s gave %d, expected %d", opname(o).c_str(), v, want);
    }
    rcutils_reset_error();
  }
  void check() override {check_levels(*L, m, all, false);}
  void canon(mc::Hasher & h) override
  {
    std::vector<uint64_t> d;
    snap_diff(d);
    d.push_back(0);
    trk::canon(h, L->T, {{d.data(), d.size() * 8}}, {{os::fo, 8}, {os::fe, 8}});
  }
  void finish() override
  {
    L->down();
    L->clean("after shutdown");
    L.reset();
  }
};
// long and deep names
void deep_names(mc::Ctx & c, int maxdepth)
{
  Log L("levels");
  L.up();
  int d = 1 + c.choose(maxdepth);          // segments
  int at = c.choose(d + 1);                // which ancestor has a level (d: none)
  int seg = c.pick({0, 1, 3, 40});
  int pat = c.choose(3);                   // what is set besides it
  std::string n;
  std::vector<std::string> pre;
  for (int i = 0; i < d; ++i) {
    if (i) {n += '.';}
    n += text_of((size_t)seg, i);
    pre.push_back(n);
  }
  Levels m;
  auto set = [&](const std::string & s, int l) {
      if (s.empty()) {return;}
      Exact e(s);
      rcutils_ret_t r = rcutils_logging_set_logger_level(e.p, l);
      MC_CHECK(r == RCUTILS_RET_OK, "levels:set", "setting level %d for %s returned %d", l, q(s).c_str(), r);
      m.lv[s] = l;
    };
  if (at < d) {set(pre[(size_t)at], 40);}
  if (pat == 1) {set(n + "x", 10); set(n + ".", 50); set("x" + n, 30);}
  if (pat == 2 && at + 1 < d) {set(pre[(size_t)at + 1], 0);}
  c.note("%d segments of %d characters, level at ancestor %d", d, seg, at);
  std::vector<std::string> names = pre;
  names.push_back(n + "y");
  names.push_back(n + ".y");
  names.push_back(n + "..");
  check_levels(L, m, names, n.size() < 200);
  c.outcome(fmt("%d", m.effective(n)));
  L.down();
  L.clean("after shutdown");
}
// many loggers
void many_loggers(mc::Ctx & c, int maxn)
{
  Log L("levels");
  L.up();
  int n = c.choose(maxn + 1);
  int order = c.choose(3);
  int change = c.choose(3);
  Levels m;
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    int j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % (n ? n : 1);
    std::string s = j % 3 == 0 ? fmt("l%d", j) : j % 3 == 1 ? fmt("l%d.c", j - 1) : fmt("l%d.c.d%d", j - 2, j);
    int l = SEV[(j * 3 + i) % 5];
    Exact e(s);
    rcutils_ret_t r = rcutils_logging_set_logger_level(e.p, l);
    MC_CHECK(r == RCUTILS_RET_OK, "levels:set", "setting level %d for %s returned %d", l, q(s).c_str(), r);
    m.lv[s] = l;
    names.push_back(s);
  }
  for (int i = 0; i < n && change; ++i) {
    if (i % 2 == 0) {continue;}
    int l = change == 1 ? 0 : SEV[i % 5];
    rcutils_ret_t r = rcutils_logging_set_logger_level(ro(names[(size_t)i]), l);
    MC_CHECK(r == RCUTILS_RET_OK, "levels:set", "changing level of %s returned %d", q(names[(size_t)i]).c_str(), r);
    m.lv[names[(size_t)i]] = l;
  }
  names.push_back("l");
  names.push_back("l0.c.x");
  check_levels(L, m, names, false);
  L.down();
  L.clean("after shutdown");
}

// ------------------------------------------------------------------ C26 dispatch
void dispatch(mc::Ctx & c, int depth)
{
  Log L("dispatch");
  L.up();
  Levels m;
  bool up = true;
  rcutils_logging_output_handler_t cur = rcutils_logging_console_output_handler;
  static const rcutils_log_location_t loc = {"fun", "dir/file.c", 77};
  int64_t now = 1700000000123456789;
  int nlog = 0;
  rcutils_logging_output_handler_t HS[] = {h1, h2, nullptr, rcutils_logging_console_output_handler};
  const char * NAMES[] = {nullptr, "", "a", "a.b"};
  const int SV[] = {10, 20, 30, 50};
  rcutils_logging_set_output_handler(cur = h1);
  auto restart = [&]() {      // what any call but shutdown does when the system is down
      if (!up) {
        up = true;
        cur = rcutils_logging_console_output_handler;
        m = Levels();
      }
    };
  for (int step = 0; step < depth; ++step) {
    now += 1000000007;
    os::clock_ns = now;
    recs.clear();
    L.drop();
    int op = c.choose(16 + 4 + 4 + 5 + 3 + 1);
    bool reads = true;
    std::string what, console;
    if (op < 16 + 4) {
      bool internal = op >= 16;
      const char * name = internal ? NAMES[op - 16] : NAMES[op % 4];
      int sev = internal ? 10 : SV[op / 4];
      if (internal && !up) {continue;}
      const rcutils_log_location_t * lp = nlog % 2 ? nullptr : &loc;
      what = fmt("%s(%s, %d, %s)", internal ? "log_internal" : "log", lp ? "location" : "NULL", sev, q(name).c_str());
      if (!internal) {restart();}
      std::string text = fmt("n%d %s", nlog, "tail%");
      // the arguments must not be expanded twice
      (internal ? rcutils_log_internal : rcutils_log)(lp, sev, name ? ro(name) : name, "n%d %s", nlog, "tail%");
      ++nlog;
      bool en = internal || sev >= (name ? m.effective(name) : m.def);
      size_t want = en && (cur == h1 || cur == h2) ? 1 : 0;
      MC_CHECK(
        recs.size() == want, "dispatch:count", "%s called the handlers %zu times, expected %zu (effective level %d)",
        what.c_str(), recs.size(), want, name ? m.effective(name) : m.def);
      if (want) {
        const Rec & r = recs[0];
        MC_CHECK(
          r.handler == (cur == h1 ? 1 : 2), "dispatch:handler", "%s went to handler %d", what.c_str(), r.handler);
        MC_CHECK(r.loc == lp, "dispatch:location", "the handler was given another location");
        MC_CHECK(r.sev == sev, "dispatch:severity", "the handler was given severity %d, expected %d", r.sev, sev);
        MC_CHECK(
          !r.null_name && r.name == (name ? name : ""), "dispatch:name", "the handler was given logger name %s",
          r.null_name ? "NULL" : q(r.name).c_str());
        MC_CHECK(
          r.ts == now, "dispatch:time", "the handler was given time %lld, the clock says %lld", (long long)r.ts,
          (long long)now);
        MC_CHECK(r.text == text, "dispatch:text", "the handler formatted %s, expected %s", q(r.text).c_str(),
          q(text).c_str());
      }
      if (en && cur == rcutils_logging_console_output_handler) {
        console = expand("", In{lp, sev, name, now, text}) + "\n";
      }
    } else if (op < 24) {
      int k = op - 20;
      what = fmt("set_output_handler(%d)", k);
      restart();
      rcutils_logging_set_output_handler(HS[k]);
      cur = HS[k];
    } else if (op < 29) {
      int k = op - 24;
      const char * n[] = {"a", "a.b", "a", "", "a.b"};
      const int l[] = {30, 10, 0, 50, 40};
      what = fmt("set_logger_level(%s, %d)", q(n[k]).c_str(), l[k]);
      restart();
      rcutils_ret_t r = rcutils_logging_set_logger_level(ro(n[k]), l[k]);
      MC_CHECK(r == RCUTILS_RET_OK, "dispatch:set", "%s returned %d", what.c_str(), r);
      m.lv[n[k]] = l[k];
      if (!*n[k]) {m.def = l[k];}
    } else if (op < 32) {
      const int l[] = {0, 10, 40};
      what = fmt("set_default_logger_level(%d)", l[op - 29]);
      restart();
      rcutils_logging_set_default_logger_level(l[op - 29]);
      m.def = l[op - 29] ? l[op - 29] : RCUTILS_DEFAULT_LOGGER_DEFAULT_LEVEL;
    } else {
      int k = c.choose(4);
      if (k == 0) {
        what = "shutdown";
        L.down();
        up = false;
        reads = false;
      } else if (k == 1) {
        what = "initialize";
        L.up();
        restart();
      } else if (k == 2) {
        what = "log with a failing clock";
        os::clock_ret = -1;
        restart();
        rcutils_log(&loc, 50, "a", "lost %d", 1);
        os::clock_ret = 0;
        MC_CHECK(recs.empty(), "dispatch:count", "a message without a time reached the handler");
        rcutils_reset_error();
        L.drop();
      } else {
        what = "get_output_handler";
        restart();
        MC_CHECK(rcutils_logging_get_output_handler() == cur, "dispatch:read", "another output handler is installed");
      }
    }
    c.note("%s", what.c_str());
    L.flush();
    MC_CHECK(
      L.err == console && L.out.empty(), "dispatch:console", "after %s stderr has %s and stdout %s, expected %s on stderr",
      what.c_str(), q(L.err).c_str(), q(L.out).c_str(), q(console).c_str());
    if (reads && up) {
      MC_CHECK(
        rcutils_logging_get_output_handler() == cur, "dispatch:read", "after %s another output handler is installed",
        what.c_str());
      MC_CHECK(
        rcutils_logging_get_default_logger_level() == m.def, "dispatch:default", "after %s the default level is %d",
        what.c_str(), rcutils_logging_get_default_logger_level());
    }
    MC_CHECK(!rcutils_error_is_set(), "dispatch:error", "%s left an error set", what.c_str());
    c.state(fmt("%d %d %d ", up, cur == h1 ? 1 : cur == h2 ? 2 : cur ? 3 : 0, m.def) + [&] {
        std::string s;
        for (auto & l : m.lv) {s += l.first + fmt("=%d,", l.second);}
        return s;
      }());
  }
  L.down();
  L.clean("after shutdown");
}
// every severity value against every level
void enabled_grid(mc::Ctx & c)
{
  Log L("dispatch");
  L.up();
  rcutils_logging_set_output_handler(h1);
  int level = SEV[c.choose(5)], how = c.choose(4);
  int sev = c.choose(62) - 3;
  const char * name = how == 0 ? nullptr : how == 1 ? "x" : how == 2 ? "x.y" : "";
  if (how == 0) {rcutils_logging_set_default_logger_level(level);} else {
    rcutils_ret_t r = rcutils_logging_set_logger_level(how == 3 ? "" : "x", level);
    MC_CHECK(r == RCUTILS_RET_OK, "dispatch:set", "set_logger_level returned %d", r);
  }
  rcutils_log(nullptr, sev, name, "%s", "t");
  MC_CHECK(
    recs.size() == (sev >= level ? 1u : 0u), "dispatch:count", "severity %d at level %d called the handler %zu times",
    sev, level, recs.size());
  c.note("severity %d at level %d", sev, level);
  L.down();
  L.clean("after shutdown");
}

// ------------------------------------------------------------------ C27 formats
const char * const TOK[] = {"{severity}", "{name}", "{message}", "{function_name}", "{file_name}", "{time}",
  "{date_time_with_ms}", "{time_as_nanoseconds}", "{line_number}"};
const char * const PIECES[] = {
  "{severity}", "{name}", "{message}", "{line_number}", "{time}", "{file_name}", "{function_name}",
  "{time_as_nanoseconds}", "{date_time_with_ms}",
  "{nam}", "{name", "name}", "{}", "{", "}", "{NAME}", "{ name}", "{names}",
  "\\n", "\\t", "\\q", "\\", "\\x1b", "\\x1", "a", " ", "%d", "\\\\", "n"};
const rcutils_log_location_t LOC1 = {"func", "/dir/file.c", 42};
const rcutils_log_location_t LOC2 = {"", "f", 123456789012345ull};
const rcutils_log_location_t LOC3 = {"a_much_longer_function_name_than_usual", "", 999999999};
const rcutils_log_location_t LOC4 = {"f", "f", 0};

void expansion(mc::Ctx & c, Log & L, const std::string & f, const In & in, size_t cap)
{
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  rcutils_ret_t r = rcutils_char_array_init(&a, cap, &L.A);
  if (r != RCUTILS_RET_OK) {throw mc::Divergence{"char_array_init"};}
  Exact msg(in.msg);
  r = rcutils_logging_format_message(in.loc, in.sev, in.name, in.ts, msg.p, &a);
  std::string want = expand(f, in);
  std::string got = a.buffer ? std::string(a.buffer, strnlen(a.buffer, a.buffer_capacity)) : "";
  MC_CHECK(
    r == RCUTILS_RET_OK, "format:ret", "formatting with %s returned %d: %s", q(f).c_str(), r, rcutils_get_error_string().str);
  MC_CHECK(
    a.buffer && got == want, "format:text", "format %s gave %s, expected %s", q(f).c_str(),
    q(got.data(), got.size(), 300).c_str(), q(want.data(), want.size(), 300).c_str());
  MC_CHECK(
    a.buffer_length == want.size() + 1, "format:length", "the length of the formatted text is %zu, expected %zu",
    a.buffer_length, want.size() + 1);
  r = rcutils_char_array_fini(&a);
  MC_CHECK(r == RCUTILS_RET_OK, "format:fini", "char_array_fini returned %d", r);
  c.outcome(want);
}
void set_format(const std::string & f) {setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", f.c_str(), 1);}
const In IN1 = {&LOC1, 30, "n.m", 1700000000123456789, "mes{name}\\n%s"};
const In IN2 = {nullptr, 10, nullptr, 5, ""};

void formats(mc::Ctx & c, int depth)
{
  Log L("format");
  std::string f;
  int n = c.choose(depth + 1);
  for (int i = 0; i < n; ++i) {f += c.pick(PIECES);}
  set_format(f);
  c.note("format %s", q(f).c_str());
  L.up();
  expansion(c, L, f, IN1, 64);
  expansion(c, L, f, IN2, 0);
  L.down();
  L.clean("after shutdown");
  L.flush();
  MC_CHECK(
    L.out.empty() && L.err.empty(), "format:noise", "formatting with %s wrote %s to the console", q(f).c_str(),
    q(L.err + L.out).c_str());
}
// every character sequence over the characters the parser looks at
void raw_formats(mc::Ctx & c, int len)
{
  Log L("format");
  std::string f = all_strings(c, "\\{}xnt1", len);
  if (c.flip()) {f += "{name}";}
  set_format(f);
  c.note("format %s", q(f).c_str());
  L.up();
  expansion(c, L, f, IN1, 8);
  L.down();
  L.clean("after shutdown");
}
void escapes(mc::Ctx & c)
{
  // every byte after a backslash, alone and in context
  Log L("format");
  int b = 1 + c.choose(255);
  std::string f = std::string(c.pick({"", "a", "\\n", "{name}", "\\q"})) + "\\" + (char)b +
    std::string(c.pick({"", "b", "\\t", "{name}", "x1b", "1b", "\\"}));
  set_format(f);
  c.note("format %s", q(f).c_str());
  L.up();
  expansion(c, L, f, IN1, 8);
  L.down();
  L.clean("after shutdown");
}
void inputs(mc::Ctx & c)
{
  Log L("format");
  std::string f = std::string(c.pick({"", "<"})) + c.pick(TOK) + c.pick({"", ">"});
  const rcutils_log_location_t * LS[] = {nullptr, &LOC1, &LOC2, &LOC3, &LOC4};
  const char * NS[] = {nullptr, "", "n", "a.b.c", "{message}", "%s\\n"};
  int64_t TS[] = {0, 1, 999999999, 1000000000, 1700000000123456789, 4102444800999999999};
  const char * MS[] = {"", "m", "{name}", "%s%n", "line\nbreak\\n"};
  In in = IN1;
  in.loc = c.pick(LS);
  in.name = c.pick(NS);
  in.sev = 10 * c.choose(6);
  in.ts = c.pick(TS);
  in.msg = c.pick(MS);
  set_format(f);
  L.up();
  expansion(c, L, f, in, 0);
  if (f.find("date") == std::string::npos) {
    for (int64_t t : {(int64_t)-1, INT64_MIN, INT64_MAX, (int64_t)-1700000000123456789}) {
      in.ts = t;
      expansion(c, L, f, in, 16);
    }
  }
  L.down();
  L.clean("after shutdown");
}
// the format of an initialization does not depend on earlier ones
const char * const SEQ[] = {"", "a", "{name}", "{message} a longer text {severity} and more of it", "\\n", "\\n\\t{name}\\n",
  "x\\q{message}", "{", "\\", "abc\\", "\\x1b[1m{name}\\x1b[0m", "{nam}{name", "}{name}{", "0123456789\\n0123456789\\n{name}",
  "\\q\\q\\q", "long long long long long long long long long", "{line_number}{file_name}", "t\\nu", "ab\\tcd\\\\ef"};
void sequences(mc::Ctx & c, int depth)
{
  Log L("format");
  for (int i = 0; i < depth; ++i) {
    std::string f = c.pick(SEQ);
    set_format(f);
    c.note("format %s", q(f).c_str());
    L.up();
    expansion(c, L, f, IN1, 8);
    expansion(c, L, f, IN2, 8);
    L.down();
    L.clean("after shutdown");
  }
}
// long formats up to the documented limit, and beyond it
void long_formats(mc::Ctx & c, bool th)
{
  Log L("format");
  int kind = c.choose(6);
  static const int OFF[] = {-9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 100};
  int n = c.flip() ? 2047 + c.pick(OFF) : (th ? 5 : 41) * c.choose(th ? 400 : 50);
  std::string f;
  if (kind == 0) {f = text_of((size_t)n);} else if (kind == 1) {
    f = std::string((size_t)n / 2, '\\') ;       // pairs of backslashes stay
    f = std::string(f.size() & ~(size_t)1, '\\');
  } else if (kind == 2) {
    while ((int)f.size() + 6 <= n) {f += "{name}";}
  } else if (kind == 3) {
    f = std::string((size_t)std::min(n, 1024), '{');
  } else if (kind == 4) {
    while ((int)f.size() + 2 <= n) {f += "\\n";}
  } else {
    f = text_of((size_t)(n > 20 ? n - 20 : 0)) + "{name}|{severity}|\\n";
  }
  if (f.size() > 2047 && kind != 0) {f.resize(2040); if (kind == 2 || kind == 1 || kind == 4) {f.resize(f.size() / 12 * 12);}}
  set_format(f);
  c.note("format of %zu characters, kind %d", f.size(), kind);
  L.up();
  expansion(c, L, f, IN1, 8);
  L.down();
  // a short one after a long one
  set_format("{name}");
  L.up();
  expansion(c, L, "{name}", IN1, 8);
  L.down();
  L.clean("after shutdown");
}
void message_lengths(mc::Ctx & c, int maxlen)
{
  Log L("format");
  const char * F[] = {"{message}", "[{message}]", "{message}{message}", "{name}:{message}|{severity}"};
  std::string f = c.pick(F);
  size_t cap = c.pick({0, 1, 2, 64, 1024});
  set_format(f);
  L.up();
  int block = c.choose(maxlen / 64 + 1);
  for (int i = 0; i < 64; ++i) {
    In in = IN1;
    in.msg = text_of((size_t)(block * 64 + i));
    std::string nm = text_of((size_t)((block * 64 + i) % 97));
    in.name = ro(nm);
    expansion(c, L, f, in, cap);
  }
  L.down();
  L.clean("after shutdown");
}
// failing allocations while formatting: an error, or the complete text
void format_faults(mc::Ctx & c)
{
  Log L("format");
  std::string f = std::string(c.pick(TOK)) + c.pick({"{message}", "text\\n", "{file_name}{name}"});
  size_t cap = c.pick({0, 1, 8});
  int k = 1 + c.choose(6);
  bool persist = c.flip();
  set_format(f);
  L.up();
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  if (rcutils_char_array_init(&a, cap, &L.A) != RCUTILS_RET_OK) {throw mc::Divergence{"init"};}
  L.T.plan(k, persist ? 1 << 30 : k);
  In in = IN1;
  in.msg = text_of(200);
  rcutils_ret_t r = rcutils_logging_format_message(in.loc, in.sev, in.name, in.ts, ro(in.msg), &a);
  bool failed = L.T.failed;
  L.T.plan(0, 0);
  if (r == RCUTILS_RET_OK) {
    MC_CHECK(
      std::string(a.buffer) == expand(f, in), "format:text", "formatting under a failing allocation succeeded with %s",
      q(a.buffer).c_str());
  } else {
    MC_CHECK(failed, "format:ret", "formatting failed without a reason");
  }
  rcutils_reset_error();
  r = rcutils_char_array_fini(&a);
  MC_CHECK(r == RCUTILS_RET_OK, "format:fini", "char_array_fini returned %d", r);
  L.down();
  L.clean("after a failed formatting");
}

// ------------------------------------------------------------------ C28 console handler
void console(
  const rcutils_log_location_t * loc, int sev, const char * name, int64_t ts, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_logging_console_output_handler(loc, sev, name, ts, f, &ap);
  va_end(ap);
}
const char * colour(int sev)
{
  switch (sev) {
    case 10: return "\033[32m";
    case 20: return "\033[0m";
    case 30: return "\033[33m";
    default: return "\033[31m";
  }
}
struct Setup {int colour, tty_out, tty_err, use_stdout; std::string f;};
bool coloured(const Setup & s)
{
  if (s.colour == 0) {return false;}
  if (s.colour == 1) {return true;}
  return (s.use_stdout ? s.tty_out : s.tty_err) != 0;
}
void configure(const Setup & s)
{
  if (s.colour < 2) {setenv("RCUTILS_COLORIZED_OUTPUT", s.colour ? "1" : "0", 1);}
  if (s.use_stdout) {setenv("RCUTILS_LOGGING_USE_STDOUT", "1", 1);}
  if (!s.f.empty()) {set_format(s.f);}
  os::tty[1] = s.tty_out;
  os::tty[2] = s.tty_err;
}
std::string line(const Setup & s, const In & in)
{
  std::string t = expand(s.f, in);
  if (coloured(s)) {t = colour(in.sev) + t + "\033[0m";}
  return t + "\n";
}
void expect(Log & L, const Setup & s, const std::string & want, const char * what)
{
  L.flush();
  const std::string & on = s.use_stdout ? L.out : L.err, & off = s.use_stdout ? L.err : L.out;
  MC_CHECK(
    on == want, "console:line", "%s wrote %zu bytes %s, expected %zu bytes %s", what, on.size(),
    q(on.data(), on.size(), 200).c_str(), want.size(), q(want.data(), want.size(), 200).c_str());
  MC_CHECK(off.empty(), "console:stream", "%s wrote %s to the other stream", what, q(off).c_str());
}
void console_lengths(mc::Ctx & c, int maxlen, int mode)
{
  Log L("console");
  Setup s{};
  s.colour = c.choose(2);
  s.use_stdout = c.flip();
  s.f = c.pick({"", "{message}", "{message}|{name}"});
  configure(s);
  L.up();
  int block = c.choose(maxlen / 32 + 1);
  int sev = SEV[(block + s.colour) % 5];
  for (int i = 0; i < 32; ++i) {
    L.drop();
    size_t n = (size_t)(block * 32 + i);
    In in{&LOC1, sev, "n.m", 1700000000123456789, ""};
    std::string nm;
    if (mode == 0) {
      in.msg = text_of(n);
      Exact e(in.msg);
      console(in.loc, sev, in.name, in.ts, "%s", e.p);
    } else if (mode == 1) {
      in.msg = text_of(n);
      Exact e(in.msg);
      console(in.loc, sev, in.name, in.ts, e.p);
    } else {
      nm = text_of(n);
      in.name = ro(nm);
      in.msg = fmt("%d-%s", 5, "x");
      console(in.loc, sev, in.name, in.ts, "%d-%s", 5, "x");
    }
    expect(L, s, line(s, in), fmt("a message of %zu characters", n).c_str());
  }
  c.note("lengths %d..%d", block * 32, block * 32 + 31);
  L.down();
  L.clean("after shutdown");
}
void console_grid(mc::Ctx & c)
{
  Log L("console");
  Setup s{};
  s.colour = c.choose(3);
  s.tty_out = c.choose(2);
  s.tty_err = c.choose(2);
  s.use_stdout = c.choose(2);
  s.f = c.pick({"", "{severity}\\n{message}", "\\x1b[7m{name}\\x1b[27m", "plain"});
  configure(s);
  L.up();
  const rcutils_log_location_t * LS[] = {nullptr, &LOC1};
  const char * NS[] = {nullptr, "", "n", "a.b"};
  for (int rep = 0; rep < 2; ++rep) {
    static const int ALL[] = {10, 20, 30, 40, 50, 0, 7, 60, -1, 11, 49};
    int sev = c.pick(ALL);
    In in{c.pick(LS), sev, c.pick(NS), 1700000000123456789, "text 5"};
    bool via = rep == 0 ? false : c.flip();
    L.drop();
    if (via) {
      os::clock_ns = in.ts;
      rcutils_logging_set_default_logger_level(10);
      rcutils_log(in.loc, sev, in.name, "text %d", 5);
    } else {
      console(in.loc, sev, in.name, in.ts, "text %d", 5);
    }
    c.note("severity %d, colour %d, tty %d %d, %s", sev, s.colour, s.tty_out, s.tty_err, s.use_stdout ? "stdout" : "stderr");
    if (sev >= 10 && sev <= 50 && sev % 10 == 0) {
      expect(L, s, line(s, in), "a message");
    } else {
      L.flush();
      MC_CHECK(
        L.out.find("text") == std::string::npos && L.err.find("text") == std::string::npos, "console:reject",
        "a message of severity %d was written", sev);
      MC_CHECK(L.out.empty(), "console:reject", "severity %d wrote %s to stdout", sev, q(L.out).c_str());
    }
  }
  L.down();
  // not initialized: nothing is written, nothing is initialized
  L.drop();
  console(&LOC1, 30, "n", 5, "text %d", 5);
  L.flush();
  MC_CHECK(
    L.out.empty() && L.err.find("text 5") == std::string::npos, "console:down", "a message was written after shutdown");
  L.clean("after shutdown");
}
void console_faults(mc::Ctx & c)
{
  Log L("console");
  Setup s{};
  s.colour = c.choose(2);
  s.use_stdout = 1;
  s.f = c.pick({"", "{message}"});
  configure(s);
  L.up();
  static const int LEN[] = {0, 1000, 1018, 1019, 1023, 1024, 1025, 2000, 5000};
  size_t n = (size_t)c.pick(LEN);
  int k = 1 + c.choose(5);
  bool persist = c.flip();
  In in{&LOC1, 40, "n", 1700000000123456789, text_of(n)};
  L.T.plan(k, persist ? 1 << 30 : k);
  console(in.loc, in.sev, in.name, in.ts, "%s", ro(in.msg));
  bool failed = L.T.failed;
  L.T.plan(0, 0);
  L.flush();
  std::string want = line(s, in);
  MC_CHECK(
    L.out == want || (failed && L.out.empty()), "console:partial",
    "with a failing allocation %d a message of %zu characters was written as %s", k, n,
    q(L.out.data(), L.out.size(), 200).c_str());
  c.note("length %zu, failing allocation %d: %s", n, k, L.out.empty() ? "nothing" : "line");
  c.outcome(L.out.empty() ? "none" : "line");
  L.drop();
  in.msg = "after";
  console(in.loc, in.sev, in.name, in.ts, "%s", "after");
  L.flush();
  MC_CHECK(L.out == line(s, in), "console:line", "the message after a failed one was written as %s", q(L.out).c_str());
  rcutils_reset_error();
  L.down();
  L.clean("after a failed message");
}
// several messages in a row do not influence each other
void console_sequences(mc::Ctx & c, int depth)
{
  Log L("console");
  Setup s{};
  s.colour = c.choose(2);
  s.use_stdout = c.choose(2);
  configure(s);
  L.up();
  std::string all;
  static const int LEN[] = {0, 3, 980, 981, 985, 990, 1023, 1024, 3000};
  for (int i = 0; i < depth; ++i) {
    In in{i % 2 ? &LOC1 : nullptr, SEV[(i * 2 + 1) % 5], "n", 1700000000123456789 + i, text_of((size_t)c.pick(LEN), i)};
    console(in.loc, in.sev, in.name, in.ts, "%s", ro(in.msg));
    all += line(s, in);
  }
  expect(L, s, all, "a sequence of messages");
  L.down();
  L.clean("after shutdown");
}

// ------------------------------------------------------------------ C29 macros
int expr_value = 1, expr_evals = 0, filter_evals = 0, arg_evals = 0, clock_evals = 0;
bool clock_fails = false;
int64_t macro_now = 0;
}  // namespace
extern "C" {
const char * rig_logger = "rig";
int rig_else = 0;
int rig_arg(void) {return 100 + ++arg_evals;}
int rig_expr(void) {++expr_evals; return expr_value;}
bool rig_filter(void) {++filter_evals; return expr_value != 0;}
rcutils_ret_t rig_clock(rcutils_time_point_value_t * t)
{
  ++clock_evals;
  if (clock_fails) {return RCUTILS_RET_ERROR;}
  *t = macro_now;
  return RCUTILS_RET_OK;
}
}
namespace
{
struct Tab {const RigSite * s; int n; int min; const char * name;};
std::vector<Tab> TABS;
struct MacroState {bool once = false; bool first = true; int64_t last = 0;};

// What a step does: pick(n) chooses one of n cases.
template<typename Pick>
void macro_step_with(mc::Ctx & c, const RigSite & s, MacroState & m, int min, Levels & lv, Pick pick)
{
  bool enabled = pick(2) != 0;
  // levels: the named sites look at logger "rig", the others at the default level
  if (!s.named) {
    rcutils_logging_set_default_logger_level(enabled ? s.severity : s.severity + 1);
    lv.def = enabled ? s.severity : s.severity + 1;
    (void)!rcutils_logging_set_logger_level("rig", enabled ? 50 : 10);
    lv.lv["rig"] = enabled ? 50 : 10;
  } else if (s.severity == 50) {
    rcutils_logging_set_default_logger_level(enabled ? 50 : 51);
    (void)!rcutils_logging_set_logger_level("rig", 0);
    lv.def = enabled ? 50 : 51;
    lv.lv["rig"] = 0;
  } else {
    rcutils_logging_set_default_logger_level(enabled ? 50 : 10);
    (void)!rcutils_logging_set_logger_level("rig", enabled ? s.severity : s.severity + 10);
    lv.def = enabled ? 50 : 10;
    lv.lv["rig"] = enabled ? s.severity : s.severity + 10;
  }
  expr_evals = filter_evals = arg_evals = clock_evals = 0;
  expr_value = 1;
  clock_fails = false;
  if (enabled && (s.kind == K_EXPR || s.kind == K_FUNC)) {
    static const int V[] = {0, 1, 2, -1};
    expr_value = V[pick(s.kind == K_EXPR ? 4 : 2)];
  }
  bool thr = s.kind == K_THROTTLE || s.kind == K_SKIP_THROTTLE;
  int64_t dur = s.duration_ms * 1000000;
  if (enabled && thr) {
    switch (pick(6)) {
      case 0: break;
      case 1: macro_now += dur - 1; break;
      case 2: macro_now += dur; break;
      case 3: macro_now += dur / 2 + 1; break;
      case 4: clock_fails = true; break;
      case 5: macro_now -= 3; break;
    }
  }
  recs.clear();
  rig_else = 0;
  s.call();
  bool want = enabled && !min;
  bool compiled = !min;
  bool diag = false;
  if (want) {
    switch (s.kind) {
      case K_ONCE: want = !m.once; m.once = true; break;
      case K_SKIP: want = !m.first; m.first = false; break;
      case K_EXPR: case K_FUNC: want = expr_value != 0; break;
      case K_THROTTLE: case K_SKIP_THROTTLE:
        if (clock_fails) {
          diag = true;
          m.last = 0;
        } else {
          want = (__int128)macro_now >= (__int128)m.last + dur;
          if (want) {m.last = macro_now;}
        }
        if (want && s.kind == K_SKIP_THROTTLE) {
          want = !m.first;
          m.first = false;
        }
        break;
      default: break;
    }
  }
  c.note(
    "%s: %s%s%s -> %s", s.macro, enabled ? "enabled" : "disabled", expr_value ? "" : ", condition false",
    thr ? fmt(", time %lld%s", (long long)macro_now, clock_fails ? " (clock fails)" : "").c_str() : "", want ? "logs" : "silent");
  // the diagnostic of a failing clock is an error message of the nameless logger
  if (diag && !recs.empty() && recs[0].name.empty() && recs[0].sev == 40 && recs[0].text.find("text") != 0) {
    recs.erase(recs.begin());
  }
  MC_CHECK(
    recs.size() == (want ? 1u : 0u), "macros:count", "%s %s called the handler %zu times, expected %d", s.macro,
    enabled ? "(enabled)" : "(disabled)", recs.size(), (int)want);
  if (want) {
    const Rec & r = recs[0];
    MC_CHECK(r.sev == s.severity, "macros:severity", "%s logged with severity %d", s.macro, r.sev);
    MC_CHECK(
      r.name == (s.named ? "rig" : ""), "macros:name", "%s logged for logger %s", s.macro, q(r.name).c_str());
    MC_CHECK(
      r.loc && r.fn == s.function && r.file == s.file && (int)r.line == s.line, "macros:location",
      "%s logged location %s in %s:%zu", s.macro, r.fn.c_str(), r.file.c_str(), r.line);
    MC_CHECK(r.text == "text 101|tail", "macros:text", "%s logged %s", s.macro, q(r.text).c_str());
  }
  MC_CHECK(
    arg_evals == (want ? 1 : 0), "macros:arguments", "%s evaluated its argument %d times, expected %d", s.macro, arg_evals,
    (int)want);
  MC_CHECK(
    expr_evals == (compiled && enabled && s.kind == K_EXPR ? 1 : 0), "macros:expression",
    "%s (%s) evaluated its expression %d times", s.macro, enabled ? "enabled" : "disabled", expr_evals);
  MC_CHECK(
    filter_evals == (compiled && enabled && s.kind == K_FUNC ? 1 : 0), "macros:function",
    "%s (%s) called its function %d times", s.macro, enabled ? "enabled" : "disabled", filter_evals);
  MC_CHECK(
    clock_evals == (compiled && enabled && thr ? 1 : 0), "macros:clock", "%s (%s) read its clock %d times", s.macro,
    enabled ? "enabled" : "disabled", clock_evals);
  MC_CHECK(rig_else == 0, "macros:else", "%s captured the else of an enclosing if", s.macro);
  rcutils_reset_error();
}
void macro_step(mc::Ctx & c, const RigSite & s, MacroState & m, int min, Levels & lv)
{
  macro_step_with(c, s, m, min, lv, [&](int n) {return c.choose(n);});
}
void macros(mc::Ctx & c, size_t tab, int depth)
{
  Log L("macros");
  const Tab & t = TABS[tab];
  const RigSite & s = t.s[c.choose(t.n)];
  L.up();
  rcutils_logging_set_output_handler(h1);
  macro_now = 1000000000000000000;
  MacroState m;
  Levels lv;
  int gone = t.min > s.severity;
  int d = gone ? 1 : depth;
  for (int i = 0; i < d; ++i) {macro_step(c, s, m, gone, lv);}
  L.flush();
  MC_CHECK(L.out.empty() && L.err.empty(), "macros:noise", "%s wrote %s", s.macro, q(L.err).c_str());
  L.down();
  L.clean("after shutdown");
}
// two call sites of the same macro are independent
void macro_pairs(mc::Ctx & c, size_t tab, int depth)
{
  Log L("macros");
  const Tab & t = TABS[tab];
  int a = c.choose(t.n / 5);            // sites of one severity, in table order
  int sev = c.choose(5);
  int per = t.n / 5;
  const RigSite & s1 = t.s[sev * per + a];
  // partner: the other site of the macro if there is one, else the same macro of the next severity
  const RigSite * s2 = &t.s[((sev + 1) % 5) * per + a];
  for (int i = 0; i < per; ++i) {
    const RigSite & o = t.s[sev * per + i];
    if (i != a && !strcmp(o.macro, s1.macro)) {s2 = &o;}
  }
  L.up();
  rcutils_logging_set_output_handler(h1);
  macro_now = 1000000000000000000;
  MacroState m[2];
  Levels lv;
  for (int i = 0; i < depth; ++i) {
    int w = c.choose(2);
    macro_step(c, w ? *s2 : s1, m[w], 0, lv);
  }
  L.down();
  L.clean("after shutdown");
}
// Another macro, once nothing is in the way of initialization.
void return_after_failure(Log & L, const Tab & t, const RigSite &)
{
  for (int i = 0; i < t.n; ++i) {
    const RigSite & s = t.s[i];
    if (t.min > s.severity || s.kind != K_PLAIN || s.severity < 20 || s.named) {continue;}
    s.call();
    L.flush();
    MC_CHECK(
      g_rcutils_logging_initialized && L.err.size() > 10 && L.err.find("error initializing") == std::string::npos, "macros:autoinit",
      "%s wrote %s once it can be initialized", s.macro, q(L.err).c_str());
    break;
  }
  L.down();
}
// the macros initialize the logging system themselves
void macro_autoinit(mc::Ctx & c, size_t tab)
{
  Log L("macros");
  const Tab & t = TABS[tab];
  const RigSite & s = t.s[c.choose(t.n)];
  if (t.min > s.severity) {return;}
  bool before = c.flip();
  if (before) {
    L.up();
    rcutils_logging_set_default_logger_level(50);
    L.down();
  }
  arg_evals = 0;
  expr_value = 1;
  clock_fails = false;
  macro_now = 1000000000000000000;
  static const char * const vars[] = {
    nullptr, "RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM", "RCUTILS_COLORIZED_OUTPUT"};
  const char * broken = c.pick(vars);
  if (broken) {
    // it cannot be initialized: that is reported instead of the message, and the program goes on
    setenv(broken, "x", 1);
    s.call();
    unsetenv(broken);
    L.flush();
    MC_CHECK(
      L.err.find("error initializing logging") != std::string::npos && L.err.find(broken) != std::string::npos && L.out.empty(),
      "macros:autoinit", "%s with a bad %s wrote %s and %s", s.macro, broken, q(L.err).c_str(), q(L.out).c_str());
    MC_CHECK(
      L.err.find("text 1") == std::string::npos && !g_rcutils_logging_initialized, "macros:autoinit",
      "%s with a bad %s wrote %s", s.macro, broken, q(L.err).c_str());
    rcutils_reset_error();
    L.err.clear();
    return_after_failure(L, t, s);
    L.clean("after shutdown");
    return;
  }
  s.call();
  L.flush();
  bool want = s.severity >= 20 && s.kind != K_SKIP && s.kind != K_SKIP_THROTTLE;
  std::string text;
  if (want) {
    In in{nullptr, s.severity, s.named ? "rig" : "", 1700000000123456789, "text 101|tail"};
    text = expand("", in) + "\n";
  }
  MC_CHECK(
    L.err == text && L.out.empty(), "macros:autoinit", "%s without initialization wrote %s, expected %s", s.macro,
    q(L.err).c_str(), q(text).c_str());
  MC_CHECK(g_rcutils_logging_initialized, "macros:autoinit", "%s did not initialize the logging system", s.macro);
  c.note("%s", s.macro);
  L.down();
  L.clean("after shutdown");
}

// ------------------------------------------------------------------ C30 initialization
const char * const VALUES[] = {nullptr, "", "0", "1", "2", "01", "true", " 1", "1 "};
int meaning(const char * v)       // 0, 1, 2: empty, -1: invalid
{
  if (!v || !*v) {return 2;}
  if (!strcmp(v, "0")) {return 0;}
  if (!strcmp(v, "1")) {return 1;}
  return -1;
}
struct Conf {const char * v[5];};
void apply_conf(const Conf & k)
{
  for (int i = 0; i < 5; ++i) {
    if (k.v[i]) {setenv(VARS[i], k.v[i], 1);} else {unsetenv(VARS[i]);}
  }
}
std::string conf_text(const Conf & k)
{
  std::string s;
  for (int i = 0; i < 5; ++i) {s += fmt("%s%s=%s", i ? " " : "", strchr(VARS[i], '_') + 1, k.v[i] ? q(k.v[i]).c_str() : "(unset)");}
  return s;
}
bool valid(const Conf & k) {return meaning(k.v[0]) >= 0 && meaning(k.v[1]) >= 0 && meaning(k.v[2]) >= 0;}
// with the system up under configuration k: is it in force?
void in_force(Log & L, const Conf & k, const char * id)
{
  Setup s{};
  s.use_stdout = meaning(k.v[0]) == 1;
  s.colour = meaning(k.v[2]);
  s.f = k.v[4] ? k.v[4] : "";
  MC_CHECK(g_rcutils_logging_initialized, fmt("%s:flag", id).c_str(), "not marked as initialized");
  MC_CHECK(
    rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler, fmt("%s:handler", id).c_str(),
    "the console handler is not installed");
  MC_CHECK(
    rcutils_logging_get_default_logger_level() == RCUTILS_LOG_SEVERITY_INFO, fmt("%s:level", id).c_str(),
    "the default level is %d", rcutils_logging_get_default_logger_level());
  for (int tty = 0; tty < 2; ++tty) {
    s.tty_out = s.tty_err = tty;
    os::tty[1] = os::tty[2] = tty;
    L.drop();
    In in{&LOC1, 40, "n", os::clock_ns, "m 1"};
    rcutils_log(in.loc, in.sev, in.name, "m %d", 1);
    const std::string & on = s.use_stdout ? L.out : L.err;
    FILE * f = s.use_stdout ? os::fo : os::fe;
    std::string want = line(s, in);
    int b = meaning(k.v[1]);
    if (b == 2) {
      MC_CHECK(
        on.empty(), fmt("%s:buffer", id).c_str(), "the buffering of the stream was changed without being configured");
    } else {
      MC_CHECK(on == want, fmt("%s:buffer", id).c_str(), "a line was not written out at once");
      fprintf(f, "half");
      MC_CHECK(
        (on == want + "half") == (b == 0), fmt("%s:buffer", id).c_str(), "the stream is %s",
        b == 0 ? "not unbuffered" : "not line buffered");
      fflush(f);
      want += "half";
    }
    L.flush();
    MC_CHECK(
      on == want, fmt("%s:line", id).c_str(), "a message was written as %s, expected %s", q(on).c_str(), q(want).c_str());
    MC_CHECK(
      (s.use_stdout ? L.err : L.out).empty(), fmt("%s:stream", id).c_str(), "the other stream was written to");
  }
  rcutils_log(&LOC1, 10, "n", "%s", "debug");
  L.flush();
  MC_CHECK(
    (L.out + L.err).find("debug") == std::string::npos, fmt("%s:level", id).c_str(), "a debug message was written");
  L.drop();
  os::tty[1] = os::tty[2] = 0;
}
void start(Log & L, const Conf & k, rcutils_ret_t r, bool failed, bool vbuf)
{
  if (!valid(k) && !(vbuf && r != RCUTILS_RET_OK)) {
    MC_CHECK(
      r == RCUTILS_RET_INVALID_ARGUMENT, "init:invalid", "initialization with %s returned %d", conf_text(k).c_str(), r);
  } else if (!failed && !vbuf) {
    MC_CHECK(
      r == RCUTILS_RET_OK, "init:ret", "initialization with %s returned %d: %s", conf_text(k).c_str(), r,
      rcutils_get_error_string().str);
  }
  MC_CHECK(
    g_rcutils_logging_initialized == (r == RCUTILS_RET_OK), "init:flag", "after result %d the system is%s initialized", r,
    g_rcutils_logging_initialized ? "" : " not");
  MC_CHECK(
    rcutils_error_is_set() == (r != RCUTILS_RET_OK), "init:error", "the error state does not match result %d", r);
  rcutils_reset_error();
  if (r != RCUTILS_RET_OK) {L.clean("after a failed initialization");}
}
void environments(mc::Ctx & c)
{
  Log L("init");
  Conf k{};
  k.v[0] = c.pick(VALUES);
  k.v[1] = c.pick(VALUES);
  k.v[2] = c.pick(VALUES);
  k.v[3] = c.pick({(const char *)nullptr, "", "1"});
  k.v[4] = c.pick({(const char *)nullptr, "", "<{message}>"});
  apply_conf(k);
  c.note("%s", conf_text(k).c_str());
  rcutils_ret_t r = L.init();
  L.flush();
  bool notice = k.v[3] && *k.v[3];
  MC_CHECK(L.out.empty(), "init:noise", "initialization wrote %s to stdout", q(L.out).c_str());
  MC_CHECK(
    L.err.empty() != notice, "init:notice", "initialization %s RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED wrote %s to stderr",
    notice ? "with" : "without", q(L.err).c_str());
  start(L, k, r, false, false);
  if (r == RCUTILS_RET_OK) {
    in_force(L, k, "init");
    L.down();
    L.clean("after shutdown");
  } else {
    // the next attempt with a good environment works
    Conf good{};
    apply_conf(good);
    L.drop();
    r = L.init();
    start(L, good, r, false, false);
    if (r == RCUTILS_RET_OK) {
      rcutils_log(nullptr, 40, "n", "%s", "again");
      L.flush();
      std::string want = expand("", In{nullptr, 40, "n", os::clock_ns, "again"}) + "\n";
      MC_CHECK(L.err == want, "init:line", "after a failed initialization a message was written as %s", q(L.err).c_str());
    }
    L.down();
    L.clean("after shutdown");
  }
  c.outcome(fmt("%d", r));
}
void init_faults(mc::Ctx & c)
{
  Log L("init");
  Conf k{};
  k.v[0] = c.pick({(const char *)nullptr, "1", "2"});
  k.v[1] = c.pick({(const char *)nullptr, "0", "1", "2"});
  k.v[4] = c.pick({(const char *)nullptr, "<{message}>"});
  apply_conf(k);
  int n = c.choose(7);
  bool persist = c.flip();
  os::setvbuf_fails = c.flip();
  bool vbuf = os::setvbuf_fails && k.v[1];
  L.T.plan(n, persist ? 1 << 30 : n);
  rcutils_ret_t r = L.init();
  bool failed = L.T.failed;
  L.T.plan(0, 0);
  c.note("%s, failing allocation %d%s -> %d", conf_text(k).c_str(), n, vbuf ? ", setvbuf fails" : "", r);
  start(L, k, r, failed, vbuf);
  if (vbuf) {
    MC_CHECK(r != RCUTILS_RET_OK, "init:setvbuf", "initialization succeeded although the buffering could not be set");
  }
  os::setvbuf_fails = false;
  if (r != RCUTILS_RET_OK) {
    // the shutdown of a system that is down is harmless
    L.down();
    Conf good{};
    good.v[1] = k.v[1] && meaning(k.v[1]) < 0 ? "1" : k.v[1];
    good.v[4] = k.v[4];
    apply_conf(good);
    r = L.init();
    start(L, good, r, false, false);
    in_force(L, good, "init");
  } else {
    in_force(L, k, "init");
  }
  // set a level: the map works
  r = rcutils_logging_set_logger_level("x", 40);
  MC_CHECK(r == RCUTILS_RET_OK, "init:map", "setting a level returned %d", r);
  MC_CHECK(rcutils_logging_get_logger_effective_level("x.y") == 40, "init:map", "the level is not in force");
  L.down();
  L.clean("after shutdown");
}
// initialization by macro, with an allocator: once, and again only when the system is down
void init_macro(mc::Ctx & c)
{
  Log L("init");
  trk::Tracker B;
  rcutils_allocator_t AB = B.get();
  Conf k{};
  k.v[0] = c.pick({(const char *)nullptr, "1", "x"});
  k.v[1] = c.pick({(const char *)nullptr, "0", "1", "2"});
  k.v[4] = c.pick({(const char *)nullptr, "<{message}>"});
  apply_conf(k);
  int n = c.choose(5);
  L.T.plan(n, n);
  int evaluated = 0;
  auto once = [&] {++evaluated; return L.A;};
  RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR(once());
  bool failed = L.T.failed || !valid(k);
  L.T.plan(0, 0);
  L.flush();
  c.note("macro with %s, failing allocation %d", conf_text(k).c_str(), n);
  MC_CHECK(evaluated == 1, "init:macro", "the allocator was evaluated %d times", evaluated);
  MC_CHECK(!rcutils_error_is_set(), "init:macro", "an error is left set");
  if (!valid(k)) {MC_CHECK(!g_rcutils_logging_initialized, "init:macro", "a broken environment was accepted");}
  if (!failed) {MC_CHECK(g_rcutils_logging_initialized, "init:macro", "the system was not initialized");}
  MC_CHECK(
    g_rcutils_logging_initialized == (L.err.find("error initializing logging: ") == std::string::npos) && L.out.empty(), "init:macro",
    "with the system %s it wrote %s", g_rcutils_logging_initialized ? "up" : "down", q(L.err).c_str());
  if (!g_rcutils_logging_initialized) {
    MC_CHECK(L.err.back() == '\n', "init:macro", "the report %s is no line", q(L.err).c_str());
    L.clean("after a failed initialization");
    if (!valid(k)) {k.v[0] = k.v[1] = nullptr;}
    apply_conf(k);
    L.drop();
    RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR(once());
    L.flush();
    MC_CHECK(
      evaluated == 2 && g_rcutils_logging_initialized && L.err.empty(), "init:macro", "the second attempt wrote %s",
      q(L.err).c_str());
  }
  // the system is up: nothing happens any more, whatever the environment says
  int before = evaluated;
  setenv("RCUTILS_LOGGING_USE_STDOUT", "bad", 1);
  RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR((++evaluated, AB));
  RCUTILS_LOGGING_AUTOINIT;
  MC_CHECK(evaluated == before && !rcutils_error_is_set(), "init:macro", "it initialized a system that is up");
  apply_conf(k);
  if (before == 1) {in_force(L, k, "init");}      // the buffering of a stream that was written to before is not judged
  L.drop();
  rcutils_log(nullptr, 40, "n", "%s", "text");
  L.flush();
  MC_CHECK(
    (k.v[0] ? L.out : L.err).find("text") != std::string::npos, "init:macro", "a message was written as %s and %s",
    q(L.out).c_str(), q(L.err).c_str());
  L.down();
  L.clean("after shutdown");
  MC_CHECK(B.live.empty(), "init:macro", "memory of the other allocator is in use");
  c.outcome(fmt("%d %d", evaluated, (int)failed));
}
// initialize, shut down, configure, in any order
void init_histories(mc::Ctx & c, int depth)
{
  Log L("init");
  trk::Tracker B;
  rcutils_allocator_t AB = B.get();
  static const Conf CONFS[] = {
    {{"1", "1", "1", nullptr, "<{message}>"}}, {{"0", "0", "0", nullptr, nullptr}}, {{"2", nullptr, nullptr, nullptr, nullptr}},
    {{nullptr, nullptr, "x", nullptr, "{name}"}}};
  Conf env{};
  Conf active{};
  bool up = false, useB = false, own = false;
  Levels m;
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(13);
    std::string what;
    L.drop();
    if (op < 4) {
      what = "environment " + conf_text(CONFS[op]);
      env = CONFS[op];
      apply_conf(env);
    } else if (op == 4 || op == 5) {
      what = op == 4 ? "initialize" : "initialize with another allocator";
      uint64_t before = L.T.total + B.total;
      rcutils_ret_t r = rcutils_logging_initialize_with_allocator(op == 4 ? L.A : AB);
      if (up) {
        MC_CHECK(r == RCUTILS_RET_OK, "init:again", "initializing again returned %d", r);
        MC_CHECK(L.T.total + B.total == before, "init:again", "initializing again allocated memory");
      } else {
        start(L, env, r, false, false);
        up = r == RCUTILS_RET_OK;
        useB = op == 5;
        active = env;
        own = false;
        m = Levels();
        MC_CHECK((op == 4 ? L.T : B).live.size() > 0 || !up, "init:allocator", "the given allocator is not used");
        MC_CHECK((op == 4 ? B : L.T).live.empty(), "init:allocator", "another allocator is used");
      }
    } else if (op == 6) {
      what = "shutdown";
      rcutils_ret_t r = rcutils_logging_shutdown();
      MC_CHECK(r == RCUTILS_RET_OK, "init:shutdown", "shutdown returned %d", r);
      up = false;
      MC_CHECK(!g_rcutils_logging_initialized, "init:flag", "still marked as initialized after shutdown");
      L.clean("after shutdown");
      MC_CHECK(B.live.empty() && B.error.empty(), "init:leak", "%zu blocks left after shutdown", B.live.size());
    } else if (op == 7) {
      what = "initialize with an invalid allocator";
      rcutils_ret_t r = rcutils_logging_initialize_with_allocator(rcutils_get_zero_initialized_allocator());
      MC_CHECK(
        r == (up ? RCUTILS_RET_OK : RCUTILS_RET_INVALID_ARGUMENT), "init:invalid allocator",
        "initialization with an invalid allocator returned %d", r);
    } else if (op == 8 && up) {
      what = "set_logger_level(\"a\", 40)";
      rcutils_ret_t r = rcutils_logging_set_logger_level("a", 40);
      MC_CHECK(r == RCUTILS_RET_OK, "init:map", "setting a level returned %d", r);
      m.lv["a"] = 40;
    } else if (op == 9 && up) {
      what = "set_default_logger_level(50)";
      rcutils_logging_set_default_logger_level(50);
      m.def = 50;
    } else if (op == 11 && up) {
      what = "set_output_handler(own)";
      rcutils_logging_set_output_handler(h1);
      own = true;
    } else if (op == 12 && up) {
      what = "set_output_handler(console)";
      rcutils_logging_set_output_handler(rcutils_logging_console_output_handler);
      own = false;
    } else if (op == 10 && up) {
      what = "log";
      recs.clear();
      Setup s{};
      s.use_stdout = meaning(active.v[0]) == 1;
      s.colour = meaning(active.v[2]);
      s.f = active.v[4] ? active.v[4] : "";
      In in{&LOC1, 30, "a.b", os::clock_ns, "m 1"};
      rcutils_log(in.loc, in.sev, in.name, "m %d", 1);
      bool on = 30 >= m.effective("a.b");
      expect(L, s, on && !own ? line(s, in) : "", "a message");
      MC_CHECK(
        recs.size() == (on && own ? 1u : 0u), "init:handler", "the own output handler was called %zu times", recs.size());
    } else {
      continue;
    }
    c.note("%s", what.c_str());
    rcutils_reset_error();
    c.state(fmt("%d %d %d %s %s %d %zu", up, useB, own, conf_text(env).c_str(), conf_text(active).c_str(), m.def, m.lv.size()));
    MC_CHECK(
      g_rcutils_logging_initialized == up, "init:flag", "after %s the system is%s initialized", what.c_str(),
      up ? " not" : "");
    if (up) {
      MC_CHECK(
        rcutils_logging_get_default_logger_level() == m.def &&
        rcutils_logging_get_logger_effective_level("a.b") == m.effective("a.b"), "init:levels",
        "after %s the levels are not those set since the initialization", what.c_str());
      MC_CHECK(
        rcutils_logging_get_output_handler() == (own ? h1 : rcutils_logging_console_output_handler), "init:handler",
        "after %s the %s output handler is not installed", what.c_str(), own ? "own" : "console");
    }
  }
  L.down();
  L.clean("after shutdown");
  MC_CHECK(B.live.empty() && B.error.empty(), "init:leak", "%zu blocks left after shutdown", B.live.size());
}

// ------------------------------------------------------------------ C31 severity names
void severity(mc::Ctx & c, const std::string & s, int want, int k)
{
  Log L("severity");
  Exact e(s);
  int out = -77;
  L.T.plan(k, k ? 1 << 30 : 0);
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(e.p, L.A, &out);
  bool failed = L.T.failed;
  L.T.plan(0, 0);
  c.note("%s -> %d, %d", q(s).c_str(), r, out);
  c.outcome(fmt("%d %d", r, out));
  if (failed) {
    MC_CHECK(
      r == RCUTILS_RET_BAD_ALLOC || r == RCUTILS_RET_ERROR, "severity:alloc", "with a failing allocation %s gave %d",
      q(s).c_str(), r);
    want = -1;
  } else {
    MC_CHECK(
      r == (want >= 0 ? RCUTILS_RET_OK : RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID), "severity:ret", "%s gave %d",
      q(s).c_str(), r);
  }
  if (want >= 0) {
    MC_CHECK(out == want, "severity:value", "%s gave level %d, expected %d", q(s).c_str(), out, want);
  } else {
    MC_CHECK(out == -77, "severity:output", "%s was rejected but the output was set to %d", q(s).c_str(), out);
  }
  MC_CHECK(memcmp(e.p, s.c_str(), s.size() + 1) == 0, "severity:input", "the argument was modified");
  L.clean("after severity_level_from_string");
  rcutils_reset_error();
}
const char * const NAMES6[] = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
int level_of(const std::string & s)
{
  std::string u = s;
  for (char & ch : u) {if (ch >= 'a' && ch <= 'z') {ch = (char)(ch - 32);}}
  for (int i = 0; i < 6; ++i) {if (u == NAMES6[i]) {return 10 * i;}}
  return -1;
}
void severity_cases(mc::Ctx & c)
{
  int i = c.choose(6);
  std::string s = NAMES6[i];
  for (char & ch : s) {if (c.flip()) {ch = (char)(ch + 32);}}
  int k = c.choose(2);
  severity(c, s, 10 * i, k);
}
void severity_near(mc::Ctx & c)
{
  std::string s = NAMES6[c.choose(6)];
  if (c.flip()) {for (char & ch : s) {ch = (char)(ch + 32);}}
  int n = (int)s.size();
  switch (c.choose(5)) {
    case 0: s.resize((size_t)c.choose(n)); break;                    // prefixes
    case 1: s[(size_t)c.choose(n)] = (char)(1 + c.choose(255)); break;
    case 2: {size_t p = (size_t)c.choose(n + 1); s.insert(p, 1, (char)(1 + c.choose(255))); break;}
    case 3: s.erase((size_t)c.choose(n), 1); break;
    default: s = std::string(c.pick({" ", "", "LOG_"})) + s + c.pick({" ", "\n", "S", "", "FATAL"}); break;
  }
  severity(c, s, level_of(s), 0);
}
void severity_any(mc::Ctx & c)
{
  std::string s = c.flip() ? all_strings(c, "INFOwarn0", 4) : std::string((size_t)c.choose(300), "Ix"[c.choose(2)]);
  severity(c, s, level_of(s), 0);
}
// the public table of names: exactly the six levels have one
void severity_table(mc::Ctx & c)
{
  int i = c.choose(RCUTILS_LOG_SEVERITY_FATAL + 1);
  const char * s = g_rcutils_log_severity_names[i];
  c.note("name of level %d is %s", i, q(s).c_str());
  if (i % 10) {
    MC_CHECK(!s, "severity:table", "level %d is named %s", i, q(s).c_str());
  } else {
    MC_CHECK(s && !strcmp(s, NAMES6[i / 10]), "severity:table", "level %d is named %s", i, q(s).c_str());
  }
  c.outcome(s ? s : "");
}
void severity_args(mc::Ctx & c)
{
  Log L("severity");
  int w = c.choose(3);
  int out = -77;
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(
    w == 0 ? nullptr : "INFO", w == 1 ? z : L.A, w == 2 ? nullptr : &out);
  MC_CHECK(
    r == RCUTILS_RET_INVALID_ARGUMENT && out == -77, "severity:args", "invalid argument %d was answered with %d", w, r);
  MC_CHECK(rcutils_error_is_set(), "severity:args", "no error is set");
  L.clean("after an invalid argument");
  rcutils_reset_error();
}

// ------------------------------------------------------------------
#include "logging_large.inc"

#include "logging_still.inc"
void setup_part(const std::string & P)
{
  bool th = mc::cfg().thorough && !calm::pass(), lt = calm::light();
  if (P == "C25") {
    struct S {const char * n; std::vector<std::string> names; std::vector<int> lv; int depth, tdepth;};
    const S sets[] = {
      {"chain", {"a", "a.b", "a.b.c"}, {0, 10, 30, 50}, 3, 4},
      {"look-alikes", {"a", "ab", "a.b"}, {0, 10, 40}, 3, 4},
      {"empty segments", {".x", "a.", "a..b", "a"}, {0, 10, 40}, 3, 4},
      {"default logger", {"", ".x", "a"}, {0, 20, 30}, 3, 4},
      {"siblings", {"a.b", "a.c", "a"}, {0, 10, 50}, 3, 4},
    };
    for (auto & s : sets) {
      for (int pre : {0, 1, 2, 11}) {
        if (pre && s.n != sets[0].n && s.n != sets[3].n) {continue;}
        if (calm::on()) {continue;}
        mc::machine(
          fmt("%s, %d other loggers", s.n, pre), [&s, pre, names = s.names, lv = s.lv] {
            return std::unique_ptr<mc::Machine>(new LevelMachine(names, pre, lv));
          }, (th ? s.tdepth : s.depth) - (pre ? 1 : 0), true, 1);
      }
    }
    calm::dfs("deep names", [=](mc::Ctx & c) {deep_names(c, th ? 24 : lt ? 5 : 9);}, 8, 2);
    calm::dfs("many loggers", [=](mc::Ctx & c) {many_loggers(c, th ? 200 : lt ? 20 : 60);}, 8, 1);
    if (!calm::on()) {calm::dfs("large", levels_large, 16, 2);}
    if (!calm::on()) {calm::dfs("deep", levels_deep, 16, 2);}
  } else if (P == "C26") {
    calm::dfs("histories", [=](mc::Ctx & c) {dispatch(c, th ? 5 : lt ? 2 : calm::on() ? 3 : 4);}, 16, 2);
    calm::dfs("severities and levels", enabled_grid, 4, 3);
    calm::dfs("large", dispatch_large, 16, 2);
  } else if (P == "C27") {
    calm::dfs("pieces", [=](mc::Ctx & c) {formats(c, th ? 4 : lt ? 2 : 3);}, 16, 3);
    calm::dfs("characters", [=](mc::Ctx & c) {raw_formats(c, th ? 7 : lt ? 3 : 5);}, 16, 3);
    calm::dfs("escapes", escapes, 8, 2);
    calm::dfs("inputs", inputs, 16, 3);
    calm::dfs("sequences", [=](mc::Ctx & c) {sequences(c, th ? 3 : 2);}, 8, 2);
    calm::dfs("long formats", [=](mc::Ctx & c) {long_formats(c, th);}, 8, 3);
    calm::dfs("message lengths", [=](mc::Ctx & c) {message_lengths(c, th ? 9000 : lt ? 1100 : 3200);}, 16, 3);
    calm::dfs("large", [=](mc::Ctx & c) {format_large(c, false);}, 8, 2);
    if (!calm::on()) {calm::dfs("failing allocations", format_faults, 4, 2);}
  } else if (P == "C28") {
    for (int m = 0; m < 3; ++m) {
      calm::dfs(
        m == 0 ? "message lengths" : m == 1 ? "format lengths" : "name lengths",
        [=](mc::Ctx & c) {console_lengths(c, th ? 9000 : lt ? 300 : 2200, m);}, 8, 4);
    }
    if (!lt) {calm::dfs("configurations", console_grid, 16, 4);}
    calm::dfs("large", [=](mc::Ctx & c) {format_large(c, true);}, 8, 2);
    calm::dfs("many", console_many, 8, 3);
    if (!calm::on()) {calm::dfs("failing allocations", console_faults, 4, 2);}
    calm::dfs("sequences", [=](mc::Ctx & c) {console_sequences(c, th ? 4 : lt ? 2 : 3);}, 8, 3);
  } else if (P == "C29") {
    TABS = {{rig_sites_0, rig_count_0, 0, "C"}, {rig_sites_cpp, rig_count_cpp, 0, "C++"},
      {rig_sites_1, rig_count_1, 0, "C, minimum DEBUG"}, {rig_sites_2, rig_count_2, 20, "C, minimum INFO"},
      {rig_sites_3, rig_count_3, 30, "C, minimum WARN"}, {rig_sites_4, rig_count_4, 40, "C, minimum ERROR"},
      {rig_sites_5, rig_count_5, 50, "C, minimum FATAL"}, {rig_sites_6, rig_count_6, 99, "C, minimum NONE"}};
    for (size_t i = 0; i < TABS.size(); ++i) {
      int d = i < 2 ? (th ? 5 : 4) : (th ? 3 : 2);
      calm::dfs(TABS[i].name, [=](mc::Ctx & c) {macros(c, i, d);}, 8, 2);
      if (i < 2) {
        calm::dfs(fmt("%s, long runs", TABS[i].name), [=](mc::Ctx & c) {macro_long(c, i, th ? 70001 : i ? 257 : 1025);}, 16, 2);
        calm::dfs(fmt("%s, two sites", TABS[i].name), [=](mc::Ctx & c) {macro_pairs(c, i, th ? 4 : 3);}, 8, 2);
      }
      calm::dfs(fmt("%s, uninitialized", TABS[i].name), [=](mc::Ctx & c) {macro_autoinit(c, i);});
    }
  } else if (P == "C30") {
    calm::dfs("environments", environments, 16, 2);
    calm::dfs("failures", init_faults, 8, 3);
    calm::dfs("macro", init_macro, 8, 3);
    calm::dfs("many", init_many, 8, 1);
    calm::dfs("histories", [=](mc::Ctx & c) {init_histories(c, th ? 6 : 5);}, 16, 2);
  } else if (P == "C46") {
    calm::dfs("histories", [=](mc::Ctx & c) {still_histories(c, th ? 3 : 2);}, 16, 3);
    calm::dfs("lengths", still_lengths, 16, 4);
    calm::dfs("time", still_time, 4, 2);
    calm::dfs("lookups by name", still_named);
  } else if (P == "C31") {
    calm::dfs("letter cases", severity_cases, 4, 2);
    calm::dfs("near names", severity_near, 8, 2);
    calm::dfs("other strings", severity_any, 8, 3);
    calm::dfs("arguments", severity_args);
    calm::dfs("table", severity_table);
  }
}
void setup()
{
  for (auto & p : calm::parts({"C25", "C26", "C27", "C28", "C31"})) {calm::part = p; setup_part(p);}
}
void worker_init()
{
  setenv("TZ", "UTC", 1);
  tzset();
  (void)!rcutils_initialize_error_handling_thread_local_storage(rcutils_get_default_allocator());
  static bool once = false;
  if (!once) {snap_take(); once = true;}
}
}  // namespace
int main(int argc, char ** argv) {return mc::main_(argc, argv, setup, worker_init);}
