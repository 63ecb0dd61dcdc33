// See tsanrt.hpp. Compiled without instrumentation.
#include "tsanrt.hpp"

#include <ctype.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <unordered_map>

extern "C" {
#define REAL(ret, name, ...) ret __real_ ## name(__VA_ARGS__)
REAL(void *, memcpy, void *, const void *, size_t);
REAL(void *, memmove, void *, const void *, size_t);
REAL(void *, memset, void *, int, size_t);
REAL(int, memcmp, const void *, const void *, size_t);
REAL(void *, memchr, const void *, int, size_t);
REAL(void *, memrchr, const void *, int, size_t);
REAL(size_t, strlen, const char *);
REAL(size_t, strnlen, const char *, size_t);
REAL(int, strcmp, const char *, const char *);
REAL(int, strncmp, const char *, const char *, size_t);
REAL(int, strcasecmp, const char *, const char *);
REAL(int, strncasecmp, const char *, const char *, size_t);
REAL(char *, strcpy, char *, const char *);
REAL(char *, strncpy, char *, const char *, size_t);
REAL(char *, strcat, char *, const char *);
REAL(char *, strncat, char *, const char *, size_t);
REAL(char *, strchr, const char *, int);
REAL(char *, strrchr, const char *, int);
REAL(char *, strstr, const char *, const char *);
REAL(char *, strtok, char *, const char *);
REAL(int, vsnprintf, char *, size_t, const char *, va_list);
REAL(int, vsprintf, char *, const char *, va_list);
REAL(size_t, strftime, char *, size_t, const char *, const struct tm *);
REAL(struct tm *, localtime_r, const time_t *, struct tm *);
REAL(struct tm *, localtime, const time_t *);
REAL(struct tm *, gmtime, const time_t *);
REAL(char *, ctime, const time_t *);
REAL(char *, asctime, const struct tm *);
REAL(char *, strerror_r, int, char *, size_t);
REAL(void, qsort, void *, size_t, size_t, int (*)(const void *, const void *));
REAL(char *, getenv, const char *);
REAL(int, setenv, const char *, const char *, int);
REAL(int, unsetenv, const char *);
REAL(int, putenv, char *);
REAL(void *, malloc, size_t);
REAL(void *, calloc, size_t, size_t);
REAL(void *, realloc, void *, size_t);
REAL(void, free, void *);
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
REAL(int, fputs, const char *, FILE *);
REAL(int, fputc, int, FILE *);
REAL(int, putc, int, FILE *);
REAL(int, puts, const char *);
REAL(int, putchar, int);
REAL(int, vfprintf, FILE *, const char *, va_list);
REAL(int, fflush, FILE *);
REAL(void, flockfile, FILE *);
REAL(void, funlockfile, FILE *);
REAL(int, ftrylockfile, FILE *);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
REAL(int, pthread_spin_lock, pthread_spinlock_t *);
REAL(int, pthread_spin_unlock, pthread_spinlock_t *);
REAL(int, pthread_once, pthread_once_t *, void (*)(void));
REAL(void, call_once, once_flag *, void (*)(void));
REAL(int, mtx_lock, mtx_t *);
REAL(int, mtx_trylock, mtx_t *);
REAL(int, mtx_unlock, mtx_t *);
REAL(int, sched_yield, void);
}

namespace
{
const int MAXT = 4;
typedef uint32_t Clock;
struct VC
{
  Clock c[MAXT] = {};
  void join(const VC & o) {for (int i = 0; i < MAXT; ++i) {if (o.c[i] > c[i]) {c[i] = o.c[i];}}}
};
struct Acc
{
  uint8_t tid, mask;
  bool write, atomic;
  Clock clk;
  void * pc;
};
struct Cell {std::vector<Acc> a; bool shared = false; int8_t owner = -1;};
struct Lock {int owner = -1; int depth = 0; int readers = 0; int rmask = 0; VC vc;};

struct Thread
{
  int id = -1;
  const std::function<void()> * body = nullptr;
  int sem = 0;                  // futex: 1 = may run
  bool done = false;
  const void * blocked = nullptr;
  VC vc;
  uintptr_t stack_lo = 0, stack_hi = 0, tls_lo = 0, tls_hi = 0;
  int streak = 0;
  int deep = 0;                 // > 0: inside the runtime
  int quiet = 0;                // > 0: in a Quiet section
  pthread_t th{};
};

struct Sched
{
  mc::Ctx * ctx = nullptr;
  rt::Options opt;
  rt::Report rep;
  int n = 0;
  Thread t[MAXT];
  int preempted = 0;
  bool abort = false;
  std::string divergence;
  int main_sem = 0;
  std::unordered_map<uintptr_t, Cell> shadow;
  std::unordered_map<uintptr_t, VC> atomics;
  std::unordered_map<uintptr_t, Lock> locks;
  std::unordered_map<uintptr_t, VC> onces;
  std::map<uintptr_t, size_t> blocks;
  VC seq;
  uint64_t stamp = 0;
};
Sched * S;
__thread Thread * me;

struct Seg {uintptr_t lo, hi;};
std::vector<Seg> g_writable;
size_t g_tls_size;
uintptr_t g_base;

int phdr_cb(struct dl_phdr_info * i, size_t, void *)
{
  // the first object is the program itself
  g_base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const ElfW(Phdr) & p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      g_writable.push_back(Seg{i->dlpi_addr + p.p_vaddr, i->dlpi_addr + p.p_vaddr + p.p_memsz});
    }
    if (p.p_type == PT_TLS) {
      size_t al = p.p_align ? p.p_align : 1;
      g_tls_size = (p.p_memsz + al - 1) / al * al;
    }
  }
  return 1;
}
bool is_static(uintptr_t a)
{
  for (auto & s : g_writable) {if (a >= s.lo && a < s.hi) {return true;}}
  return false;
}

void futex_wait(int * p)
{
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
void futex_post(int * p)
{
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

struct Deep
{
  Deep() {++me->deep;}
  ~Deep() {--me->deep;}
};
// true when the calling thread's step is to be observed
inline bool active() {return me && me->deep == 0 && me->quiet == 0;}

int decide(int n)
{
  if (n <= 1) {return 0;}
  if (S->abort) {return 0;}
  try {
    return S->ctx->env(n);
  } catch (mc::Divergence & d) {
    S->divergence = d.msg;
    S->abort = true;
  } catch (...) {
    S->divergence = "unexpected exception at a scheduling point";
    S->abort = true;
  }
  return 0;
}

void hand_over(int to)
{
  ++S->rep.switches;
  Thread * self = me;
  futex_post(&S->t[to].sem);
  futex_wait(&self->sem);
}

// the running thread cannot continue (finished or blocked): somebody else must
void give_up(bool finished)
{
  std::vector<int> en;
  for (int i = 0; i < S->n; ++i) {
    if (i != me->id && !S->t[i].done && !S->t[i].blocked) {en.push_back(i);}
  }
  if (en.empty()) {
    bool all = true;
    for (int i = 0; i < S->n; ++i) {all = all && S->t[i].done;}
    if (!all && S->rep.deadlock.empty()) {
      S->rep.deadlock = finished ? "a thread waits for a lock nobody holds any more" : "all threads wait for locks";
    }
    futex_post(&S->main_sem);
    if (!finished) {
      for (;;) {pause();}        // a deadlocked process is given up by the caller
    }
    return;
  }
  int k = en[(size_t)decide((int)en.size())];
  if (finished) {
    ++S->rep.switches;
    futex_post(&S->t[k].sem);
  } else {
    hand_over(k);
  }
}

void point()
{
  ++S->rep.points;
  me->streak++;
  int en[MAXT], m = 0;
  for (int i = 0; i < S->n; ++i) {
    if (i != me->id && !S->t[i].done && !S->t[i].blocked) {en[m++] = i;}
  }
  if (!m) {
    if (me->streak > 1000000) {S->rep.deadlock = "a thread spins for ever"; futex_post(&S->main_sem); for (;;) {pause();}}
    return;
  }
  if (me->streak > 3000) {
    // fairness: a spinning thread has to let the others proceed
    me->streak = 0;
    hand_over(en[0]);
    return;
  }
  if (S->preempted >= S->opt.preemptions) {return;}
  int k = decide(m + 1);
  if (k) {
    ++S->preempted;
    me->streak = 0;
    hand_over(en[k - 1]);
  }
}

std::string where(void * pc)
{
  char cmd[512], line[512] = "";
  std::string out;
  char exe[256] = "";
  ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  if (n <= 0) {return "?";}
  snprintf(
    cmd, sizeof(cmd), "addr2line -f -s -e '%s' 0x%lx 2>/dev/null", exe,
    (unsigned long)((uintptr_t)pc - g_base - 1));
  FILE * f = popen(cmd, "r");
  if (!f) {return "?";}
  for (int i = 0; i < 2 && fgets(line, sizeof(line), f); ++i) {
    std::string l = line;
    while (!l.empty() && l.back() == '\n') {l.pop_back();}
    out += (i ? " (" : "") + l + (i ? ")" : "");
  }
  pclose(f);
  return out;
}

void record_race(const Acc & a, uintptr_t addr, bool w, void * pc)
{
  if (!S->rep.race.empty()) {return;}
  S->rep.race = mc::fmt(
    "thread %d %s and thread %d %s the same memory (%s) without synchronization: %s, %s", a.tid,
    a.write ? "writes" : "reads", me->id, w ? "writes" : "reads", is_static(addr) ? "static data" : "heap",
    where(a.pc).c_str(), where(pc).c_str());
}

void cell_access(uintptr_t g, uint8_t mask, bool w, bool atomic, void * pc)
{
  Cell & c = S->shadow[g];
  if (c.owner == -1) {c.owner = (int8_t)me->id;} else if (c.owner != me->id) {c.shared = true;}
  bool merged = false;
  for (auto & e : c.a) {
    if (e.tid != me->id && (e.mask & mask) && (w || e.write) && !(atomic && e.atomic) &&
      e.clk > me->vc.c[e.tid])
    {
      record_race(e, g, w, pc);
    }
    if (e.tid == me->id && e.write == w && e.atomic == atomic) {
      if (e.clk == me->vc.c[me->id] || (e.mask & ~mask) == 0) {
        e.mask |= mask;
        e.clk = me->vc.c[me->id];
        e.pc = pc;
        merged = true;
      }
    }
  }
  if (!merged) {
    c.a.push_back(Acc{(uint8_t)me->id, mask, w, atomic, me->vc.c[me->id], pc});
    if (c.a.size() > 24) {c.a.erase(c.a.begin());}
  }
}

enum Kind {PRIVATE, TLS, STATIC, OTHER};
Kind kind_of(uintptr_t a)
{
  if (a >= me->tls_lo && a < me->tls_hi) {return TLS;}
  if (a >= me->stack_lo && a < me->stack_hi) {return PRIVATE;}
  if (is_static(a)) {return STATIC;}
  return OTHER;
}

// one access of the instrumented code
void access(uintptr_t a, size_t n, bool w, bool atomic, void * pc)
{
  if (!n) {return;}
  Deep d;
  Kind k = kind_of(a);
  if (k == PRIVATE) {return;}
  ++S->rep.accesses;
  bool visible = false;
  if (k == TLS) {
    if (S->opt.tls_visible) {point();}
    return;
  }
  if (k == STATIC) {
    visible = w || S->opt.reads_visible;
  } else {
    // memory somebody else has touched
    for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8) {
      auto it = S->shadow.find(g);
      if (it != S->shadow.end() && (it->second.shared || it->second.owner != me->id)) {visible = true; break;}
    }
  }
  if (visible && !atomic) {point();}
  for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8) {
    uint8_t mask = 0xff;
    if (g < a) {mask = (uint8_t)(mask & (0xff << (a - g)));}
    if (g + 8 > a + n) {mask = (uint8_t)(mask & (0xff >> (g + 8 - a - n)));}
    cell_access(g, mask, w, atomic, pc);
  }
}
inline void tick() {me->vc.c[me->id]++;}

void forget(void * p, size_t n)
{
  for (uintptr_t g = (uintptr_t)p & ~(uintptr_t)7; g < (uintptr_t)p + n; g += 8) {S->shadow.erase(g);}
}

// ---- locks
Lock & lock_of(const void * p) {return S->locks[(uintptr_t)p];}
bool can_take(Lock & l, bool read)
{
  if (read) {return l.owner == -1;}
  return (l.owner == -1 && l.readers == 0);
}
void take(const void * p, bool read, bool recursive)
{
  Deep d;
  ++S->rep.sync;
  point();
  for (;;) {
    Lock & l = lock_of(p);
    if (recursive && l.owner == me->id) {l.depth++; return;}
    if (can_take(l, read)) {
      if (read) {l.readers++;} else {l.owner = me->id; l.depth = 1;}
      me->vc.join(l.vc);
      return;
    }
    me->blocked = p;
    me->streak = 0;
    give_up(false);
  }
}
bool try_take(const void * p, bool recursive)
{
  Deep d;
  ++S->rep.sync;
  point();
  Lock & l = lock_of(p);
  if (recursive && l.owner == me->id) {l.depth++; return true;}
  if (!can_take(l, false)) {return false;}
  l.owner = me->id;
  l.depth = 1;
  me->vc.join(l.vc);
  return true;
}
void release(const void * p)
{
  Deep d;
  ++S->rep.sync;
  Lock & l = lock_of(p);
  if (l.owner == me->id) {
    if (--l.depth) {return;}
    l.owner = -1;
  } else if (l.readers) {
    l.readers--;
  }
  l.vc.join(me->vc);
  tick();
  for (int i = 0; i < S->n; ++i) {if (S->t[i].blocked == p) {S->t[i].blocked = nullptr;}}
  point();
}
bool is_recursive(pthread_mutex_t * m)
{
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}

int do_once(int * flag, void (* f)(void))
{
  // 0: not run, 1: running, 2: done (the values glibc uses)
  {
    Deep d;
    ++S->rep.sync;
    point();
  }
  for (;;) {
    if (*flag == 2) {
      me->vc.join(S->onces[(uintptr_t)flag]);
      return 0;
    }
    if (*flag == 0) {
      *flag = 1;
      f();
      Deep d;
      *flag = 2;
      S->onces[(uintptr_t)flag] = me->vc;
      tick();
      for (int i = 0; i < S->n; ++i) {if (S->t[i].blocked == flag) {S->t[i].blocked = nullptr;}}
      return 0;
    }
    Deep d;
    me->blocked = flag;
    give_up(false);
  }
}

// ---- atomics (sequentially consistent exploration)
void atomic_step(uintptr_t a, size_t n, bool w, int mo, void * pc, bool release_side)
{
  Deep d;
  ++S->rep.sync;
  Kind k = kind_of(a);
  if (k == PRIVATE) {return;}
  if (!release_side) {point();}
  access(a, n, w, true, pc);
  VC & v = S->atomics[a];
  bool acq = mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE;
  bool rel = w && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
  if (acq) {me->vc.join(v);}
  if (rel) {v.join(me->vc); tick();}
}

void * thread_main(void * p)
{
  Thread * t = (Thread *)p;
  t->deep = 1;
  me = t;
  pthread_attr_t at;
  void * sa;
  size_t ss;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &sa, &ss);
  pthread_attr_destroy(&at);
  t->stack_lo = (uintptr_t)sa;
  t->stack_hi = (uintptr_t)sa + ss;
  t->tls_hi = (uintptr_t)__builtin_thread_pointer();
  t->tls_lo = t->tls_hi - g_tls_size;
  futex_wait(&t->sem);
  t->deep = 0;
  (*t->body)();
  t->deep = 1;
  t->done = true;
  give_up(true);
  me = nullptr;
  return nullptr;
}
}  // namespace

namespace rt
{
int self() {return me ? me->id : -1;}
uint64_t stamp() {return ++S->stamp;}
Quiet::Quiet() {if (me) {++me->quiet;}}
Quiet::~Quiet() {if (me) {--me->quiet;}}

Report run(mc::Ctx & c, const std::vector<std::function<void()>> & bodies, const Options & o)
{
  if (g_writable.empty()) {dl_iterate_phdr(phdr_cb, nullptr);}
  static pthread_attr_t attr;
  static bool attr_ok = false;
  if (!attr_ok) {
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 1 << 20);
    attr_ok = true;
  }
  std::unique_ptr<Sched> own(new Sched());
  Sched & s = *own;
  S = &s;
  s.ctx = &c;
  s.opt = o;
  s.n = (int)bodies.size();
  for (int i = 0; i < s.n; ++i) {
    s.t[i].id = i;
    s.t[i].body = &bodies[(size_t)i];
    s.t[i].vc.c[i] = 1;
    if (pthread_create(&s.t[i].th, &attr, thread_main, &s.t[i])) {throw mc::Divergence{"pthread_create failed"};}
  }
  int first = s.n > 1 ? c.env(s.n) : 0;
  futex_post(&s.t[first].sem);
  futex_wait(&s.main_sem);
  if (!s.rep.deadlock.empty()) {
    // the threads can never end: report and leave them behind with their scheduler
    std::string why = s.rep.deadlock;
    own.release();
    mc::fail("deadlock", "%s", why.c_str());
  }
  for (int i = 0; i < s.n; ++i) {pthread_join(s.t[i].th, nullptr);}
  S = nullptr;
  s.rep.steps = s.rep.points;
  if (!s.divergence.empty()) {throw mc::Divergence{s.divergence};}
  return s.rep;
}
}  // namespace rt

// ------------------------------------------------------------------ compiler interface
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read ## n(void * p) {if (active()) {access((uintptr_t)p, n, false, false, PC);}} \
  void __tsan_write ## n(void * p) {if (active()) {access((uintptr_t)p, n, true, false, PC);}} \
  void __tsan_unaligned_read ## n(void * p) {if (active()) {access((uintptr_t)p, n, false, false, PC);}} \
  void __tsan_unaligned_write ## n(void * p) {if (active()) {access((uintptr_t)p, n, true, false, PC);}} \
  void __tsan_volatile_read ## n(void * p) {if (active()) {access((uintptr_t)p, n, false, false, PC);}} \
  void __tsan_volatile_write ## n(void * p) {if (active()) {access((uintptr_t)p, n, true, false, PC);}} \
  void __tsan_read ## n ## _pc(void * p, void * pc) {if (active()) {access((uintptr_t)p, n, false, false, pc);}} \
  void __tsan_write ## n ## _pc(void * p, void * pc) {if (active()) {access((uintptr_t)p, n, true, false, pc);}}
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void * p, size_t n) {if (active()) {access((uintptr_t)p, n, false, false, PC);}}
void __tsan_write_range(void * p, size_t n) {if (active()) {access((uintptr_t)p, n, true, false, PC);}}
void __tsan_vptr_update(void ** p, void *) {if (active()) {access((uintptr_t)p, 8, true, false, PC);}}
void __tsan_vptr_read(void ** p) {if (active()) {access((uintptr_t)p, 8, false, false, PC);}}

#define AT(bits, T) \
  T __tsan_atomic ## bits ## _load(const volatile T * a, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), false, mo, PC, false);} return __atomic_load_n(a, __ATOMIC_SEQ_CST);} \
  void __tsan_atomic ## bits ## _store(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} __atomic_store_n(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _exchange(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_add(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_sub(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_and(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_or(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_xor(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);} \
  T __tsan_atomic ## bits ## _fetch_nand(volatile T * a, T v, int mo) \
  {if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);} \
  int __tsan_atomic ## bits ## _compare_exchange_strong(volatile T * a, T * c, T v, int mo, int) \
  { \
    if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic ## bits ## _compare_exchange_weak(volatile T * a, T * c, T v, int mo, int) \
  { \
    if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic ## bits ## _compare_exchange_val(volatile T * a, T c, T v, int mo, int) \
  { \
    if (active()) {atomic_step((uintptr_t)a, sizeof(T), true, mo, PC, false);} \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    return c; \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  if (active()) {Deep d; S->seq.join(me->vc); me->vc.join(S->seq); tick();}
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ libc calls of the library
#define RD(p, n) do {if (active()) {access((uintptr_t)(p), (n), false, false, PC);}} while (0)
#define WR(p, n) do {if (active()) {access((uintptr_t)(p), (n), true, false, PC);}} while (0)

void * __wrap_memcpy(void * d, const void * s, size_t n) {RD(s, n); WR(d, n); return __real_memcpy(d, s, n);}
void * __wrap_memmove(void * d, const void * s, size_t n) {RD(s, n); WR(d, n); return __real_memmove(d, s, n);}
void * __wrap_memset(void * d, int c, size_t n) {WR(d, n); return __real_memset(d, c, n);}
int __wrap_memcmp(const void * a, const void * b, size_t n) {RD(a, n); RD(b, n); return __real_memcmp(a, b, n);}
void * __wrap_memchr(const void * a, int c, size_t n)
{
  void * r = __real_memchr(a, c, n);
  RD(a, r ? (size_t)((char *)r - (const char *)a) + 1 : n);
  return r;
}
void * __wrap_memrchr(const void * a, int c, size_t n) {RD(a, n); return __real_memrchr(a, c, n);}
size_t __wrap_strlen(const char * s) {size_t n = __real_strlen(s); RD(s, n + 1); return n;}
size_t __wrap_strnlen(const char * s, size_t m) {size_t n = __real_strnlen(s, m); RD(s, n < m ? n + 1 : m); return n;}
static void rd_str(const char * s, size_t lim, void * pc)
{
  if (!active()) {return;}
  size_t n = __real_strnlen(s, lim);
  access((uintptr_t)s, n < lim ? n + 1 : lim, false, false, pc);
}
int __wrap_strcmp(const char * a, const char * b)
{
  rd_str(a, SIZE_MAX, PC); rd_str(b, SIZE_MAX, PC);
  return __real_strcmp(a, b);
}
int __wrap_strncmp(const char * a, const char * b, size_t n)
{
  rd_str(a, n, PC); rd_str(b, n, PC);
  return __real_strncmp(a, b, n);
}
int __wrap_strcasecmp(const char * a, const char * b)
{
  rd_str(a, SIZE_MAX, PC); rd_str(b, SIZE_MAX, PC);
  return __real_strcasecmp(a, b);
}
int __wrap_strncasecmp(const char * a, const char * b, size_t n)
{
  rd_str(a, n, PC); rd_str(b, n, PC);
  return __real_strncasecmp(a, b, n);
}
char * __wrap_strcpy(char * d, const char * s)
{
  rd_str(s, SIZE_MAX, PC); WR(d, __real_strlen(s) + 1);
  return __real_strcpy(d, s);
}
char * __wrap_strncpy(char * d, const char * s, size_t n)
{
  rd_str(s, n, PC); WR(d, n);
  return __real_strncpy(d, s, n);
}
char * __wrap_strcat(char * d, const char * s)
{
  rd_str(d, SIZE_MAX, PC); rd_str(s, SIZE_MAX, PC);
  WR(d + __real_strlen(d), __real_strlen(s) + 1);
  return __real_strcat(d, s);
}
char * __wrap_strncat(char * d, const char * s, size_t n)
{
  rd_str(d, SIZE_MAX, PC); rd_str(s, n, PC);
  WR(d + __real_strlen(d), __real_strnlen(s, n) + 1);
  return __real_strncat(d, s, n);
}
char * __wrap_strchr(const char * s, int c) {rd_str(s, SIZE_MAX, PC); return __real_strchr(s, c);}
char * __wrap_strrchr(const char * s, int c) {rd_str(s, SIZE_MAX, PC); return __real_strrchr(s, c);}
char * __wrap_strstr(const char * a, const char * b)
{
  rd_str(a, SIZE_MAX, PC); rd_str(b, SIZE_MAX, PC);
  return __real_strstr(a, b);
}
// functions with hidden static state: that state is one location
static uint64_t hidden_strtok, hidden_time, hidden_env;
static void hidden(uint64_t * p, bool w, void * pc)
{
  if (active()) {access((uintptr_t)p, 8, w, false, pc);}
}
char * __wrap_strtok(char * s, const char * d) {hidden(&hidden_strtok, true, PC); return __real_strtok(s, d);}
struct tm * __wrap_localtime(const time_t * t) {hidden(&hidden_time, true, PC); return __real_localtime(t);}
struct tm * __wrap_gmtime(const time_t * t) {hidden(&hidden_time, true, PC); return __real_gmtime(t);}
char * __wrap_ctime(const time_t * t) {hidden(&hidden_time, true, PC); return __real_ctime(t);}
char * __wrap_asctime(const struct tm * t) {hidden(&hidden_time, true, PC); return __real_asctime(t);}
char * __wrap_getenv(const char * n) {hidden(&hidden_env, false, PC); return __real_getenv(n);}
int __wrap_setenv(const char * n, const char * v, int o) {hidden(&hidden_env, true, PC); return __real_setenv(n, v, o);}
int __wrap_unsetenv(const char * n) {hidden(&hidden_env, true, PC); return __real_unsetenv(n);}
int __wrap_putenv(char * n) {hidden(&hidden_env, true, PC); return __real_putenv(n);}

int __wrap_vsnprintf(char * d, size_t n, const char * f, va_list ap)
{
  va_list a2;
  va_copy(a2, ap);
  int r = __real_vsnprintf(nullptr, 0, f, a2);
  va_end(a2);
  if (d && n && r >= 0) {WR(d, (size_t)r < n ? (size_t)r + 1 : n);}
  return __real_vsnprintf(d, n, f, ap);
}
int __wrap_snprintf(char * d, size_t n, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = __wrap_vsnprintf(d, n, f, ap);
  va_end(ap);
  return r;
}
int __wrap_vsprintf(char * d, const char * f, va_list ap)
{
  va_list a2;
  va_copy(a2, ap);
  int r = __real_vsnprintf(nullptr, 0, f, a2);
  va_end(a2);
  if (r >= 0) {WR(d, (size_t)r + 1);}
  return __real_vsprintf(d, f, ap);
}
int __wrap_sprintf(char * d, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = __wrap_vsprintf(d, f, ap);
  va_end(ap);
  return r;
}
size_t __wrap_strftime(char * d, size_t n, const char * f, const struct tm * t)
{
  RD(t, sizeof(*t));
  size_t r = __real_strftime(d, n, f, t);
  WR(d, r + 1 < n ? r + 1 : n);
  return r;
}
struct tm * __wrap_localtime_r(const time_t * t, struct tm * o)
{
  RD(t, sizeof(*t)); WR(o, sizeof(*o));
  return __real_localtime_r(t, o);
}
char * __wrap_strerror_r(int e, char * b, size_t n) {WR(b, n); return __real_strerror_r(e, b, n);}
void __wrap_qsort(void * b, size_t n, size_t s, int (* f)(const void *, const void *))
{
  WR(b, n * s);
  __real_qsort(b, n, s, f);
}

// ---- heap: a released block becomes fresh memory
static void released(void * p, void * pc)
{
  if (!active() || !p) {return;}
  size_t n;
  {
    Deep d;
    n = malloc_usable_size(p);
    for (uintptr_t g = (uintptr_t)p; g < (uintptr_t)p + n; g += 8) {
      auto it = S->shadow.find(g);
      if (it == S->shadow.end()) {continue;}
      cell_access(g, 0xff, true, false, pc);
    }
    forget(p, n);
  }
}
static void * fresh(void * p)
{
  if (p && active()) {
    Deep d;
    forget(p, malloc_usable_size(p));
  }
  return p;
}
void * __wrap_malloc(size_t n) {return fresh(__real_malloc(n));}
void * __wrap_calloc(size_t a, size_t b) {return fresh(__real_calloc(a, b));}
void * __wrap_realloc(void * p, size_t n)
{
  released(p, PC);
  return fresh(__real_realloc(p, n));
}
void __wrap_free(void * p)
{
  released(p, PC);
  __real_free(p);
}

// ---- streams: every call is one atomic write, as stdio locks the stream
static bool captured(FILE * f, const char * p, size_t n, const void * lk = nullptr)
{
  if (!active() || (f != stdout && f != stderr)) {return false;}
  if (S->opt.stdio_visible) {
    // respect flockfile
    take(f, false, true);
    {
      Deep d;
      S->rep.out.push_back(rt::Output{me->id, f == stdout ? 1 : 2, std::string(p, n)});
    }
    Deep d;
    Lock & l = lock_of(f);
    if (--l.depth == 0) {
      // stdio's own lock does not order the memory accesses of its callers reliably: no clock is passed on
      l.owner = -1;
      for (int i = 0; i < S->n; ++i) {if (S->t[i].blocked == f) {S->t[i].blocked = nullptr;}}
    }
  } else {
    Deep d;
    S->rep.out.push_back(rt::Output{me->id, f == stdout ? 1 : 2, std::string(p, n)});
  }
  return true;
}
size_t __wrap_fwrite(const void * p, size_t s, size_t n, FILE * f)
{
  RD(p, s * n);
  if (captured(f, (const char *)p, s * n)) {return n;}
  return __real_fwrite(p, s, n, f);
}
int __wrap_fputs(const char * p, FILE * f)
{
  rd_str(p, SIZE_MAX, PC);
  if (captured(f, p, __real_strlen(p))) {return 1;}
  return __real_fputs(p, f);
}
int __wrap_fputc(int c, FILE * f)
{
  char ch = (char)c;
  if (captured(f, &ch, 1)) {return c;}
  return __real_fputc(c, f);
}
int __wrap_putc(int c, FILE * f)
{
  char ch = (char)c;
  if (captured(f, &ch, 1)) {return c;}
  return __real_putc(c, f);
}
int __wrap_putchar(int c)
{
  char ch = (char)c;
  if (captured(stdout, &ch, 1)) {return c;}
  return __real_putchar(c);
}
int __wrap_puts(const char * p)
{
  rd_str(p, SIZE_MAX, PC);
  if (active()) {
    std::string t = std::string(p) + "\n";
    if (captured(stdout, t.data(), t.size())) {return 1;}
  }
  return __real_puts(p);
}
int __wrap_vfprintf(FILE * f, const char * fmt, va_list ap)
{
  if (active() && (f == stdout || f == stderr)) {
    char * b = nullptr;
    int r;
    {
      Deep d;
      r = vasprintf(&b, fmt, ap);
    }
    if (r >= 0) {
      captured(f, b, (size_t)r);
      Deep d;
      __real_free(b);
    }
    return r;
  }
  return __real_vfprintf(f, fmt, ap);
}
int __wrap_fprintf(FILE * f, const char * fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  int r = __wrap_vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
int __wrap_printf(const char * fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  int r = __wrap_vfprintf(stdout, fmt, ap);
  va_end(ap);
  return r;
}
int __wrap_vprintf(const char * fmt, va_list ap) {return __wrap_vfprintf(stdout, fmt, ap);}
int __wrap_fflush(FILE * f)
{
  if (active()) {return 0;}
  return __real_fflush(f);
}
ssize_t __wrap_write(int fd, const void * p, size_t n)
{
  if (active() && (fd == 1 || fd == 2) && captured(fd == 1 ? stdout : stderr, (const char *)p, n)) {return (ssize_t)n;}
  return __real_write(fd, p, n);
}
ssize_t __wrap_writev(int fd, const struct iovec * v, int k)
{
  if (active() && (fd == 1 || fd == 2)) {
    std::string t;
    {
      Deep d;
      for (int i = 0; i < k; ++i) {t.append((const char *)v[i].iov_base, v[i].iov_len);}
    }
    if (captured(fd == 1 ? stdout : stderr, t.data(), t.size())) {return (ssize_t)t.size();}
  }
  return __real_writev(fd, v, k);
}
void __wrap_flockfile(FILE * f) {if (active()) {take(f, false, true);} else {__real_flockfile(f);}}
int __wrap_ftrylockfile(FILE * f)
{
  if (active()) {return try_take(f, true) ? 0 : 1;}
  return __real_ftrylockfile(f);
}
void __wrap_funlockfile(FILE * f) {if (active()) {release(f);} else {__real_funlockfile(f);}}

// ---- locks
int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_mutex_lock(m);}
  take(m, false, is_recursive(m));
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_mutex_trylock(m);}
  return try_take(m, is_recursive(m)) ? 0 : EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_mutex_unlock(m);}
  release(m);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_rwlock_rdlock(m);}
  take(m, true, false);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_rwlock_wrlock(m);}
  take(m, false, false);
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_rwlock_unlock(m);}
  release(m);
  return 0;
}
int __wrap_pthread_spin_lock(pthread_spinlock_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_spin_lock(m);}
  take((const void *)m, false, false);
  return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t * m)
{
  if (!active()) {return me ? 0 : __real_pthread_spin_unlock(m);}
  release((const void *)m);
  return 0;
}
int __wrap_pthread_once(pthread_once_t * o, void (* f)(void))
{
  if (!active()) {return me ? 0 : __real_pthread_once(o, f);}
  return do_once((int *)o, f);
}
void __wrap_call_once(once_flag * o, void (* f)(void))
{
  if (!active()) {if (!me) {__real_call_once(o, f);} return;}
  do_once((int *)(void *)o, f);
}
int __wrap_mtx_lock(mtx_t * m)
{
  if (!active()) {return me ? thrd_success : __real_mtx_lock(m);}
  take(m, false, is_recursive((pthread_mutex_t *)(void *)m));
  return thrd_success;
}
int __wrap_mtx_trylock(mtx_t * m)
{
  if (!active()) {return me ? thrd_success : __real_mtx_trylock(m);}
  return try_take(m, is_recursive((pthread_mutex_t *)(void *)m)) ? thrd_success : thrd_busy;
}
int __wrap_mtx_unlock(mtx_t * m)
{
  if (!active()) {return me ? thrd_success : __real_mtx_unlock(m);}
  release(m);
  return thrd_success;
}
int __wrap_sched_yield(void)
{
  if (!active()) {return __real_sched_yield();}
  Deep d;
  // a voluntary switch
  int en[MAXT], m = 0;
  for (int i = 0; i < S->n; ++i) {
    if (i != me->id && !S->t[i].done && !S->t[i].blocked) {en[m++] = i;}
  }
  if (m) {me->streak = 0; hand_over(en[decide(m)]);}
  return 0;
}
}  // extern "C"

// memory of the harness is never compared with that of an earlier owner
static void * cxx_new(size_t n)
{
  void * p = __real_malloc(n ? n : 1);
  if (!p) {abort();}
  if (S && me && me->deep == 0) {
    ++me->deep;
    forget(p, malloc_usable_size(p));
    --me->deep;
  }
  return p;
}
void * operator new(size_t n) {return cxx_new(n);}
void * operator new[](size_t n) {return cxx_new(n);}
void operator delete(void * p) noexcept {__real_free(p);}
void operator delete[](void * p) noexcept {__real_free(p);}
void operator delete(void * p, size_t) noexcept {__real_free(p);}
void operator delete[](void * p, size_t) noexcept {__real_free(p);}
