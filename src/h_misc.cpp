// C18-C21, C24, C32-C34, C36-C40: the smaller parts of the library.
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <locale.h>
#include <sys/syscall.h>
#include <algorithm>
#include <array>
#include <thread>
#include "lib.hpp"
#include "check_rig.h"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/logging.h"
#include "rcutils/macros.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "rcutils/types.h"

using mc::fmt;
using mc::q;

extern "C" int __sanitizer_get_ownership(const volatile void *);

// ------------------------------------------------------------------ interposed libc
namespace os
{
bool clock_on = false;
int clock_ret = 0;
struct timespec clock_value;
std::vector<int> clock_ids;
bool env_fail = false;
std::string err;              // what the library wrote to stderr
bool quiet_fault = true;
int dl_fail = 0;              // 1: dlopen, 2: dlinfo, 3: dlclose
}  // namespace os
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
  if (!os::clock_on) {return __real_clock_gettime(id, ts);}
  os::clock_ids.push_back((int)id);
  if (os::clock_ret < 0) {errno = EINVAL; return os::clock_ret;}
  *ts = os::clock_value;
  return 0;
}
int __real_setenv(const char *, const char *, int);
int __wrap_setenv(const char * a, const char * b, int o)
{
  if (os::env_fail) {errno = ENOMEM; return -1;}
  return __real_setenv(a, b, o);
}
int __real_unsetenv(const char *);
int __wrap_unsetenv(const char * a)
{
  if (os::env_fail) {errno = EINVAL; return -1;}
  return __real_unsetenv(a);
}
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void * p, size_t s, size_t n, FILE * f)
{
  return __real_fwrite(p, s, n, f);
}
int __wrap_printf(const char * f, ...)
{
  if (strstr(f, "fault")) {return 0;}          // fault injection reports every fault on stdout
  va_list ap;
  va_start(ap, f);
  int r = vprintf(f, ap);
  va_end(ap);
  return r;
}
void * __real_dlopen(const char *, int);
int __real_dlinfo(void *, int, void *);
int __real_dlclose(void *);
void * __wrap_dlopen(const char * p, int m)
{
  if (os::dl_fail == 1) {
    return __real_dlopen("/nonexistent/lib.so", m);
  }
  return __real_dlopen(p, m);
}
int __wrap_dlinfo(void * h, int r, void * o)
{
  if (os::dl_fail == 2) {
    __real_dlinfo(h, -42, o);
    return -1;
  }
  return __real_dlinfo(h, r, o);
}
int __wrap_dlclose(void * h)
{
  int r = __real_dlclose(h);
  if (os::dl_fail == 3) {
    __real_dlopen("/nonexistent/lib.so", RTLD_LAZY);
    return 1;
  }
  return r;
}
}

namespace
{
std::string scratch;      // per-worker directory

// ------------------------------------------------------------------ C18
// FIPS 180-4, written from the specification
struct Sha
{
  static uint32_t rr(uint32_t v, int n) {return (v >> n) | (v << (32 - n));}
  static std::string digest(const std::string & m)
  {
    static uint32_t K[64], H0[8];
    static bool init = false;
    if (!init) {
      init = true;
      int np = 0;
      for (int p = 2; np < 64; ++p) {
        bool prime = true;
        for (int d = 2; d * d <= p; ++d) {if (p % d == 0) {prime = false;}}
        if (!prime) {continue;}
        // fractional parts of the cube and square roots, by integer search
        unsigned __int128 one = 1;
        auto frac = [&](int pw) {
            // largest r with r^pw <= p * 2^(32*pw)
            uint64_t lo = 0, hi = (uint64_t)30 << 32;
            while (lo < hi) {
              uint64_t mid = lo + (hi - lo + 1) / 2;
              // compare mid^pw with p << 32*pw using long multiplication in 256 bits
              bool le;
              if (pw == 2) {
                le = (unsigned __int128)mid * mid <= ((unsigned __int128)(uint64_t)p << 64);
              } else {
                unsigned __int128 sq = (unsigned __int128)mid * mid;      // < 2^74
                unsigned __int128 a = (sq >> 64) * mid, b = (sq & (((one) << 64) - 1)) * mid;
                unsigned __int128 top = a + (b >> 64);
                le = top < ((unsigned __int128)(uint64_t)p << 32) ||
                  (top == ((unsigned __int128)(uint64_t)p << 32) && (uint64_t)b == 0);
              }
              if (le) {lo = mid;} else {hi = mid - 1;}
            }
            return (uint32_t)lo;
          };
        K[np] = frac(3);
        if (np < 8) {H0[np] = frac(2);}
        ++np;
      }
    }
    uint32_t h[8];
    memcpy(h, H0, sizeof(h));
    std::string d = m;
    d += (char)0x80;
    while (d.size() % 64 != 56) {d += '\0';}
    uint64_t bits = (uint64_t)m.size() * 8;
    for (int i = 7; i >= 0; --i) {d += (char)(bits >> (8 * i));}
    for (size_t o = 0; o < d.size(); o += 64) {
      uint32_t w[64];
      for (int i = 0; i < 16; ++i) {
        w[i] = 0;
        for (int j = 0; j < 4; ++j) {w[i] = w[i] * 256 + (uint8_t)d[o + (size_t)(4 * i + j)];}
      }
      for (int i = 16; i < 64; ++i) {
        uint32_t a = w[i - 15], b = w[i - 2];
        w[i] = w[i - 16] + (rr(a, 7) ^ rr(a, 18) ^ (a >> 3)) + w[i - 7] + (rr(b, 17) ^ rr(b, 19) ^ (b >> 10));
      }
      uint32_t v[8];
      memcpy(v, h, sizeof(v));
      for (int i = 0; i < 64; ++i) {
        uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) +
          K[i] + w[i];
        uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) +
          ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        for (int j = 7; j > 0; --j) {v[j] = v[j - 1];}
        v[4] += t1;
        v[0] = t1 + t2;
      }
      for (int i = 0; i < 8; ++i) {h[i] += v[i];}
    }
    std::string out;
    for (int i = 0; i < 8; ++i) {for (int j = 3; j >= 0; --j) {out += (char)(h[i] >> (8 * j));}}
    return out;
  }
};
std::string hex(const std::string & s)
{
  std::string o;
  for (unsigned char c : s) {o += fmt("%02x", c);}
  return o;
}
std::string message(size_t n, int fill)
{
  std::string s(n, '\0');
  for (size_t i = 0; i < n; ++i) {
    s[i] = fill == 0 ? '\0' : fill == 1 ? (char)0xff : (char)(i * 131 + (i >> 8) * 17 + 7 + (size_t)fill);
  }
  return s;
}
const std::string & oracle(size_t n, int fill)
{
  static std::map<std::pair<size_t, int>, std::string> memo;
  auto k = std::make_pair(n, fill);
  auto it = memo.find(k);
  if (it == memo.end()) {it = memo.emplace(k, Sha::digest(message(n, fill))).first;}
  return it->second;
}
std::string finish(rcutils_sha256_ctx_t * x)
{
  Exact out(RCUTILS_SHA256_BLOCK_SIZE, 0x5A);
  rcutils_sha256_final(x, (uint8_t *)out.p);
  return std::string(out.p, out.n);
}
struct ShaCtx
{
  rcutils_sha256_ctx_t * x = (rcutils_sha256_ctx_t *)malloc(sizeof(*x));
  ShaCtx() {memset((void *)x, 0xE7, sizeof(*x));}
  ~ShaCtx() {free(x);}
};
void feed(rcutils_sha256_ctx_t * x, const std::string & m, size_t at, size_t n)
{
  Exact e(m.data() + at, n);
  rcutils_sha256_update(x, (const uint8_t *)e.p, n);
}
void sha_whole(mc::Ctx & c, int max)
{
  size_t n = (size_t)c.choose(max + 1, "length");
  int fill = c.choose(4, "content");
  ShaCtx s;
  std::string m = message(n, fill);
  rcutils_sha256_init(s.x);
  feed(s.x, m, 0, n);
  std::string got = finish(s.x);
  MC_CHECK(
    got == oracle(n, fill), "sha:digest", "the digest of %zu bytes (content %d) is %s, expected %s", n, fill,
    hex(got).c_str(), hex(oracle(n, fill)).c_str());
  c.outcome(got);
  c.state(got);
}
void sha_split2(mc::Ctx & c, int max)
{
  size_t n = (size_t)c.choose(max + 1, "length");
  size_t a = (size_t)c.choose((int)n + 1, "first piece");
  ShaCtx s;
  std::string m = message(n, 2);
  rcutils_sha256_init(s.x);
  feed(s.x, m, 0, a);
  c.state(fmt("%zu", a % 64));
  feed(s.x, m, a, n - a);
  std::string got = finish(s.x);
  MC_CHECK(got == oracle(n, 2), "sha:split", "%zu bytes fed as %zu + %zu give another digest", n, a, n - a);
  c.outcome(got);
}
void sha_split3(mc::Ctx & c, int max)
{
  size_t n = (size_t)c.choose(max + 1, "length");
  size_t a = (size_t)c.choose((int)n + 1, "first piece");
  size_t b = (size_t)c.choose((int)(n - a) + 1, "second piece");
  ShaCtx s;
  std::string m = message(n, 3);
  rcutils_sha256_init(s.x);
  feed(s.x, m, 0, a);
  feed(s.x, m, a, b);
  feed(s.x, m, a + b, n - a - b);
  c.state(fmt("%zu %zu", a % 64, (a + b) % 64));
  std::string got = finish(s.x);
  MC_CHECK(
    got == oracle(n, 3), "sha:split", "%zu bytes fed as %zu + %zu + %zu give another digest", n, a, b, n - a - b);
  c.outcome(got);
}
void sha_pieces(mc::Ctx & c, int count)
{
  static const size_t sizes[] = {0, 1, 55, 56, 63, 64, 65, 119, 127, 128, 129, 200};
  ShaCtx s;
  rcutils_sha256_init(s.x);
  size_t n = 0;
  std::string m = message((size_t)count * 200, 2), how;
  for (int i = 0; i < count; ++i) {
    size_t k = c.pick(sizes);
    feed(s.x, m, n, k);
    n += k;
    how += fmt("%s%zu", i ? "+" : "", k);
    c.state(fmt("%zu %zu", n % 64, n / 64));
  }
  c.note("%s bytes", how.c_str());
  std::string got = finish(s.x);
  MC_CHECK(got == oracle(n, 2), "sha:pieces", "%s bytes give another digest than at once", how.c_str());
  c.outcome(got);
}
// two contexts used in turn, reused after init
void sha_contexts(mc::Ctx & c, int depth)
{
  static const size_t sizes[] = {1, 60, 64, 70};
  ShaCtx s[2];
  size_t n[2] = {0, 0};
  std::string m = message((size_t)depth * 70, 2);
  for (int i = 0; i < 2; ++i) {rcutils_sha256_init(s[i].x);}
  for (int i = 0; i < depth; ++i) {
    int w = c.choose(2);
    int op = c.choose(5);
    if (op < 4) {
      feed(s[w].x, m, n[w], sizes[op]);
      n[w] += sizes[op];
      c.note("update %d with %zu", w, sizes[op]);
    } else {
      std::string got = finish(s[w].x);
      c.note("final %d", w);
      MC_CHECK(got == oracle(n[w], 2), "sha:contexts", "context %d with %zu bytes has a wrong digest", w, n[w]);
      rcutils_sha256_init(s[w].x);
      n[w] = 0;
    }
    c.state(fmt("%zu %zu", n[0], n[1]));
  }
  for (int w = 0; w < 2; ++w) {
    MC_CHECK(
      finish(s[w].x) == oracle(n[w], 2), "sha:contexts", "context %d with %zu bytes has a wrong digest", w, n[w]);
  }
  c.outcome(fmt("%zu %zu", n[0], n[1]));
}
// totals beyond 2^32 bits; digests of zero bytes computed with Python's hashlib
struct Big {uint64_t n; const char * digest; bool thorough;};
const Big BIG[] = {
#include "sha_big.inc"
};
void sha_big(mc::Ctx & c, bool th)
{
  int k = c.choose((int)(sizeof(BIG) / sizeof(BIG[0])));
  bool once = th && c.flip();
  const Big & b = BIG[k];
  if (b.thorough && !th) {return;}
  ShaCtx s;
  rcutils_sha256_init(s.x);
  size_t chunk = once ? b.n : (size_t)1 << 24;
  void * z = mmap(nullptr, chunk, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (z == MAP_FAILED) {throw mc::Divergence{"no memory"};}
  uint64_t left = b.n;
  while (left) {
    size_t t = left < chunk ? (size_t)left : chunk;
    rcutils_sha256_update(s.x, (const uint8_t *)z, t);
    left -= t;
    if (c.slot) {++c.slot->beat;}
  }
  munmap(z, chunk);
  std::string got = hex(finish(s.x));
  c.note("%llu zero bytes", (unsigned long long)b.n);
  MC_CHECK(
    got == b.digest, "sha:big", "the digest of %llu zero bytes is %s, expected %s", (unsigned long long)b.n,
    got.c_str(), b.digest);
  c.outcome(got);
}

// ------------------------------------------------------------------ C19
typedef __int128 i128;
std::vector<int64_t> points(bool th)
{
  std::set<int64_t> s;
  auto add = [&](i128 v, int64_t r) {
      for (int64_t d = -r; d <= r; ++d) {
        i128 x = v + d;
        if (x >= (i128)INT64_MIN && x <= (i128)INT64_MAX) {s.insert((int64_t)x);}
      }
    };
  auto both = [&](i128 v, int64_t r) {add(v, r); add(-v, r);};
  add(0, 3);
  i128 p = 1;
  for (int i = 0; i < 20; ++i, p *= 10) {both(p, 1); both(p * 9, 0); both(p * 5, 0);}
  for (int i = 0; i < 64; ++i) {both((i128)1 << i, 1);}
  const i128 S = 1000000000;
  const i128 units[] = {S, 60 * S, 3600 * S, 86400 * S, 365 * 86400 * S, 366 * 86400 * S};
  for (i128 u : units) {for (int k = 1; k <= 3; ++k) {both(u * k, 1); both(u * k + S / 2, 0);}}
  // around month and leap-year boundaries
  for (int y = -290; y <= 290; y += th ? 1 : 13) {
    i128 t = (i128)y * 31556952 * S;
    add(t, 0);
    for (int m = 0; m < 12; ++m) {add(t + (i128)m * 2629746 * S + m * 7 * S / 10, 0);}
  }
  add((i128)951782400 * S, 1);      // 2000-02-29
  add((i128)951868800 * S, 1);
  add((i128)4107542400 * S, 1);     // 2100-03-01
  add((i128) - 2203891200 * S, 1);   // 1900-03-01
  add((i128)1099725896 * S + 123456789, 1);
  s.insert(INT64_MIN);
  s.insert(INT64_MIN + 1);
  s.insert(INT64_MAX);
  s.insert(INT64_MAX - 1);
  return std::vector<int64_t>(s.begin(), s.end());
}
// proleptic Gregorian calendar from a day number
void civil(int64_t z, int64_t & y, int & m, int & d)
{
  y = 1970;
  auto leap = [](int64_t v) {return (v % 4 == 0 && v % 100 != 0) || v % 400 == 0;};
  while (z < 0) {--y; z += leap(y) ? 366 : 365;}
  while (z >= (leap(y) ? 366 : 365)) {z -= leap(y) ? 366 : 365; ++y;}
  const int len[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  m = 0;
  while (z >= len[m]) {z -= len[m++];}
  d = (int)z + 1;
  ++m;
}
struct Zone {const char * tz; int offset;};
const Zone ZONES[] = {{"UTC0", 0}, {"AAA-5:30", 19800}, {"BBB8", -28800}, {"CCC-13", 46800}, {"DDD0:00:01", -1}};
std::string date_text(int64_t t, int offset)
{
  i128 v = t;
  const i128 S = 1000000000;
  i128 sec = v / S, ns = v % S;
  if (ns < 0) {ns += S; --sec;}
  int64_t l = (int64_t)sec + offset;
  int64_t day = l / 86400, r = l % 86400;
  if (r < 0) {r += 86400; --day;}
  int64_t y;
  int m, d;
  civil(day, y, m, d);
  return fmt(
    "%lld-%02d-%02d %02d:%02d:%02d.%03d", (long long)y, m, d, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60),
    (int)(ns / 1000000));
}
std::string digits(unsigned __int128 v, int width)
{
  std::string s;
  while (v) {s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10;}
  while ((int)s.size() < width) {s.insert(s.begin(), '0');}
  return s;
}
std::string ns_text(int64_t t)
{
  i128 v = t;
  return (v < 0 ? "-" : "") + digits((unsigned __int128)(v < 0 ? -v : v), 19);
}
std::string s_text(int64_t t)
{
  i128 v = t;
  unsigned __int128 a = (unsigned __int128)(v < 0 ? -v : v);
  return (v < 0 ? "-" : "") + digits(a / 1000000000u, 10) + "." + digits(a % 1000000000u, 9);
}
typedef rcutils_ret_t (* TimeFn)(const rcutils_time_point_value_t *, char *, size_t);
const TimeFn TFN[] = {rcutils_time_point_value_as_nanoseconds_string, rcutils_time_point_value_as_seconds_string,
  rcutils_time_point_value_as_date_string};
const char * const TNAME[] = {"nanoseconds", "seconds", "date"};
void time_case(mc::Ctx & c, int64_t t, int k, size_t size, const Zone & z)
{
  std::string want = k == 0 ? ns_text(t) : k == 1 ? s_text(t) : date_text(t, z.offset);
  Exact b(size);
  rcutils_time_point_value_t v = t;
  rcutils_reset_error();
  rcutils_ret_t r = TFN[k](&v, b.p, size);
  MC_CHECK(
    r == RCUTILS_RET_OK, (std::string(TNAME[k]) + ":ret").c_str(),
    "%s string of %lld with a buffer of %zu returned %d", TNAME[k], (long long)t, size, r);
  MC_CHECK(v == t, "time:input", "the time point was changed");
  if (size == 0) {
    MC_CHECK((unsigned char)b.p[0] == 0xAB, "time:zero", "a buffer of size zero was written");
  } else {
    std::string w = want.substr(0, size - 1);
    size_t n = strnlen(b.p, size);
    MC_CHECK(
      n == w.size() && n < size && memcmp(b.p, w.data(), n) == 0, (std::string(TNAME[k]) + ":text").c_str(),
      "%s string of %lld in %s with a buffer of %zu is %s, expected %s", TNAME[k], (long long)t, z.tz, size,
      q(b.p, n).c_str(), q(w).c_str());
  }
  MC_CHECK(!rcutils_error_is_set(), "time:error", "an error is set after success");
  c.note("%s of %lld -> %s", TNAME[k], (long long)t, want.c_str());
  c.outcome(want);
  c.state(fmt("%s %zu", want.c_str(), size));
}
std::vector<int64_t> POINTS;
void use_zone(const Zone & z)
{
  static const char * current = nullptr;
  if (current == z.tz) {return;}
  current = z.tz;
  __real_setenv("TZ", z.tz, 1);
  tzset();
}
void time_strings(mc::Ctx & c)
{
  int k = c.choose(3);
  int64_t t = c.pick(POINTS);
  const Zone & z = ZONES[k == 2 ? c.choose((int)(sizeof(ZONES) / sizeof(ZONES[0]))) : 0];
  use_zone(z);
  static const size_t sizes[] = {64, 0, 1, 2, 11, 12, 13, 19, 20, 21, 22, 23, 24, 25, 26, 31, 32, 33};
  time_case(c, t, k, c.pick(sizes), z);
}
void time_sizes(mc::Ctx & c)
{
  static const int64_t ts[] = {0, -1, 1, 1099725896123456789, -1099725896123456789, INT64_MAX, INT64_MIN, 999999999,
    -1000000000, 1000000};
  int k = c.choose(3);
  int64_t t = c.pick(ts);
  use_zone(ZONES[0]);
  time_case(c, t, k, (size_t)c.choose(72), ZONES[0]);
}
void time_millis(mc::Ctx & c)
{
  int k = c.choose(3);
  static const int64_t base[] = {0, 1700000000, -1, -86400};
  int64_t s = c.pick(base);
  int ms = c.choose(1000);
  static const int64_t rest[] = {0, 1, 999999, 99999};
  use_zone(ZONES[0]);
  time_case(c, s * 1000000000 + (int64_t)ms * 1000000 + c.pick(rest), k, 64, ZONES[0]);
}
void time_days(mc::Ctx & c, int step)
{
  // every day from 1677 to 2262
  int64_t first = -106750, last = 106750;
  int64_t day = first + (int64_t)c.choose((int)((last - first) / step) + 1) * step;
  static const int64_t off[] = {0, 86399};
  use_zone(ZONES[0]);
  time_case(c, (day * 86400 + c.pick(off)) * 1000000000, 2, 64, ZONES[0]);
}
void time_args(mc::Ctx & c)
{
  int k = c.choose(3);
  bool nt = c.flip(), nb = c.flip();
  size_t size = c.flip() ? 32 : 0;
  rcutils_time_point_value_t v = 5;
  char b[32];
  memset(b, 0xAB, sizeof(b));
  rcutils_reset_error();
  rcutils_ret_t r = TFN[k](nt ? nullptr : &v, nb ? nullptr : b, size);
  if (nt || nb) {
    MC_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "time:args", "a null argument returned %d", r);
    MC_CHECK(rcutils_error_is_set(), "time:args", "a null argument did not set the error");
    for (char x : b) {MC_CHECK((unsigned char)x == 0xAB, "time:args", "output changed on an error");}
  }
  rcutils_reset_error();
}

// ------------------------------------------------------------------ C20
void clocks(mc::Ctx & c)
{
  static const long secs[] = {0, 1, 2, 59, 1700000000L, 2147483647L, 2147483648L, 4294967295L, 4294967296L,
    9007199254L, 9007199255L, 9223372035L, -1, -2147483648L, LONG_MIN};
  static const long nsecs[] = {0, 1, 2, 499999999, 500000000, 999999998, 999999999, -1, -999999999};
  bool steady = c.flip();
  bool null = c.flip();
  int ret = c.flip() ? -1 : 0;
  long s = c.pick(secs), n = c.pick(nsecs);
  rcutils_time_point_value_t out = 4242;
  os::clock_value.tv_sec = s;
  os::clock_value.tv_nsec = n;
  os::clock_ret = ret;
  os::clock_ids.clear();
  rcutils_reset_error();
  os::clock_on = true;
  rcutils_ret_t r = (steady ? rcutils_steady_time_now : rcutils_system_time_now)(null ? nullptr : &out);
  os::clock_on = false;
  const char * w = steady ? "steady" : "system";
  c.note("%s clock: clock_gettime returns %d, %ld s %ld ns -> %d, %lld", w, ret, s, n, r, (long long)out);
  rcutils_ret_t want = null ? RCUTILS_RET_INVALID_ARGUMENT :
    ret < 0 || s < 0 || (s == 0 && n < 0) ? RCUTILS_RET_ERROR : RCUTILS_RET_OK;
  MC_CHECK(
    r == want, "clock:ret", "%s clock with result %d, %ld s and %ld ns returned %d, expected %d", w, ret, s, n, r,
    want);
  int64_t value = want == RCUTILS_RET_OK ? (int64_t)((i128)s * 1000000000 + n) : 4242;
  MC_CHECK(
    out == value, "clock:value", "%s clock with %ld s and %ld ns gave %lld, expected %lld", w, s, n, (long long)out,
    (long long)value);
  MC_CHECK(
    rcutils_error_is_set() == (want != RCUTILS_RET_OK), "clock:error", "error state does not match result %d", r);
  for (int id : os::clock_ids) {
    bool good = steady ? (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME) :
      id == CLOCK_REALTIME;
    MC_CHECK(good, "clock:id", "the %s clock reads operating system clock %d", w, id);
  }
  if (want != RCUTILS_RET_INVALID_ARGUMENT) {
    MC_CHECK(!os::clock_ids.empty(), "clock:id", "the operating system clock was not read");
  }
  rcutils_reset_error();
  c.outcome(fmt("%d %lld", r, (long long)value));
  c.state(fmt("%d%d%d %ld %ld", steady, null, ret, s, n));
}
// successive readings are what the system clock says, in order
void clock_sequence(mc::Ctx & c, int depth)
{
  static const long steps[] = {0, 1, 999999999, 1000000000, 3600000000000L};
  bool steady = c.flip();
  i128 t = (i128)1700000000 * 1000000000 + 5;
  for (int i = 0; i < depth; ++i) {
    t += c.pick(steps);
    os::clock_value.tv_sec = (time_t)(t / 1000000000);
    os::clock_value.tv_nsec = (long)(t % 1000000000);
    os::clock_ret = 0;
    rcutils_time_point_value_t out = 0;
    os::clock_on = true;
    rcutils_ret_t r = (steady ? rcutils_steady_time_now : rcutils_system_time_now)(&out);
    os::clock_on = false;
    MC_CHECK(r == RCUTILS_RET_OK && out == (int64_t)t, "clock:sequence", "reading %d is wrong", i);
  }
  c.outcome(fmt("%lld", (long long)t));
}

// ------------------------------------------------------------------ C21
struct ErrModel
{
  bool set = false;
  std::string msg, file;
  uint64_t line = 0;
  std::string text() const
  {
    return set ? msg.substr(0, 767) + ", at " + file.substr(0, 228) + ":" + fmt("%llu", (unsigned long long)line) :
           "error not set";
  }
};
void err_observe(const ErrModel & m, const char * when)
{
  MC_CHECK(rcutils_error_is_set() == m.set, "error:is_set", "is_set is %d %s", !m.set, when);
  rcutils_error_string_t s = rcutils_get_error_string();
  size_t n = strnlen(s.str, sizeof(s.str));
  std::string w = m.text();
  MC_CHECK(
    n == w.size() && memcmp(s.str, w.data(), n) == 0, "error:string", "the error string is %s %s, expected %s",
    q(s.str, n).c_str(), when, q(w).c_str());
  const rcutils_error_state_t * st = rcutils_get_error_state();
  if (m.set) {
    MC_CHECK(st != nullptr, "error:state", "no error state %s", when);
    MC_CHECK(
      st->line_number == m.line && strcmp(st->file, m.file.substr(0, 228).c_str()) == 0 &&
      strcmp(st->message, m.msg.substr(0, 767).c_str()) == 0, "error:state",
      "the error state is %s %s:%llu %s", q(st->message).c_str(), q(st->file).c_str(),
      (unsigned long long)st->line_number, when);
  } else {
    MC_CHECK(st == nullptr, "error:state", "there is an error state %s although no error is set", when);
  }
}
// stderr is a stream of our own while this lives
struct Capture
{
  FILE * old = stderr;
  static FILE * stream()
  {
    static FILE * f = [] {
        cookie_io_functions_t io = {};
        io.write = [](void *, const char * b, size_t n) -> ssize_t {os::err.append(b, n); return (ssize_t)n;};
        FILE * s = fopencookie(nullptr, "w", io);
        setvbuf(s, nullptr, _IONBF, 0);
        return s;
      }();
    return f;
  }
  Capture() {os::err.clear(); stderr = stream();}
  ~Capture() {fflush(stream()); stderr = old;}
};
void err_set(ErrModel & m, const std::string & msg, const std::string & file, uint64_t line)
{
  Capture cap;
  std::string before = m.text();
  bool was = m.set;
  {
    Exact a(msg), b(file);
    rcutils_set_error_state(a.p, b.p, line);
  }
  // a different error that was not reset is reported on the error stream
  bool similar = msg == before || msg.substr(0, 767) == m.msg.substr(0, 767);
  if (was && !similar) {
    MC_CHECK(
      os::err.find(before) != std::string::npos, "error:overwrite",
      "overwriting the error %s was not reported on stderr", q(before).c_str());
  }
  if (!was && msg.size() < 768 && file.size() < 229) {
    MC_CHECK(os::err.empty(), "error:noise", "setting an error wrote %s to stderr", q(os::err).c_str());
  }
  m.set = true;
  m.msg = msg;
  m.file = file;
  m.line = line;
  if (was && !similar) {
    size_t at = os::err.find(before);
    MC_CHECK(
      os::err.find(m.text(), at + before.size()) != std::string::npos, "error:overwrite",
      "the report of an overwritten error does not name the new one, %s: %s", q(m.text()).c_str(), q(os::err).c_str());
  }
}
void err_histories(mc::Ctx & c, int depth)
{
  rcutils_reset_error();
  ErrModel m;
  std::string lm = text_of(767, 3), lx = text_of(900, 4), lf = text_of(228, 5), lfx = text_of(400, 6);
  rcutils_allocator_t A = rcutils_get_default_allocator();
  for (int i = 0; i < depth; ++i) {
    int op = c.choose(14);
    c.note("op %d", op);
    Capture cap;
    switch (op) {
      case 0: err_set(m, "a", "f.c", 1); break;
      case 1: err_set(m, "ab, at f.c", "g.c", 42); break;
      case 2: err_set(m, i % 2 ? "ab" : "", "", 0); break;
      case 3: err_set(m, lm, lf, UINT64_MAX); break;
      case 4: err_set(m, lx, lfx, 100); break;
      case 5: rcutils_reset_error(); m = ErrModel(); break;
      case 6: {rcutils_error_string_t s = rcutils_get_error_string(); memset(&s, 'x', sizeof(s)); break;}
      case 7: err_observe(m, "when read within a history"); break;
      case 8: rcutils_set_error_state(nullptr, "f.c", 1); break;
      case 9: rcutils_set_error_state("x", nullptr, 1); break;
      case 10: {
          uint64_t line = __LINE__ + 1;
          RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("v=%d %s", 5, lm.c_str());
          m.set = true; m.msg = "v=5 " + lm; m.file = __FILE__; m.line = line;
          break;
        }
      case 11: {
          // a copy handed back in replaces the whole state
          if (!m.set) {break;}
          rcutils_error_string_t s = rcutils_get_error_string();
          rcutils_set_error_state(s.str, "again.c", 7);
          m.msg = m.text(); m.file = "again.c"; m.line = 7;
          break;
        }
      case 12: {
          std::string prev = m.set ? ": " + m.text() : "";
          uint64_t line = __LINE__ + 1;
          RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("more");
          m.set = true; m.msg = ("more" + prev).substr(0, 1023); m.file = __FILE__; m.line = line;
          break;
        }
      default: {
          rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(A);
          MC_CHECK(r == RCUTILS_RET_OK, "error:tls", "initializing again returned %d", r);
          break;
        }
    }
    c.state(m.text());
  }
  err_observe(m, "after a history");
  err_observe(m, "when read again");
  c.outcome(m.text());
  rcutils_reset_error();
}
void err_lengths(mc::Ctx & c)
{
  int mode = c.choose(3);
  static const uint64_t lines[] = {0, 1, 9, 10, 99, 100, 12345, 4294967295u, 4294967296u, 9999999999999999999u,
    10000000000000000000u, UINT64_MAX};
  size_t ml = 5, fl = 5;
  uint64_t line = 77;
  if (mode == 0) {
    static const size_t fls[] = {0, 5, 227, 228, 229, 300};
    ml = (size_t)c.choose(1100);
    fl = c.pick(fls);
  } else if (mode == 1) {
    static const size_t mls[] = {0, 5, 766, 767, 768, 1100};
    fl = (size_t)c.choose(320);
    ml = c.pick(mls);
    line = UINT64_MAX;
  } else {
    static const size_t mls[] = {0, 5, 767, 768, 1100};
    static const size_t fls[] = {0, 5, 228, 229, 300};
    line = c.pick(lines);
    ml = c.pick(mls);
    fl = c.pick(fls);
  }
  rcutils_reset_error();
  ErrModel m;
  if (mode == 2 && c.flip()) {err_set(m, text_of(767, 9), text_of(228, 8), UINT64_MAX);}
  err_set(m, text_of(ml, 1), text_of(fl, 2), line);
  c.note("message of %zu, file of %zu, line %llu", ml, fl, (unsigned long long)line);
  err_observe(m, "after setting");
  err_observe(m, "when read again");
  c.outcome(m.text());
  c.state(fmt("%zu %zu", ml, fl));
  rcutils_reset_error();
}

// ------------------------------------------------------------------ C42 time units
void units(mc::Ctx & c)
{
  struct U {const char * n; int64_t (* f)(int, int64_t); int64_t k; bool mul;};
  static const U us[] = {
    {"S_TO_NS", rig_s_to_ns, 1000000000, true}, {"MS_TO_NS", rig_ms_to_ns, 1000000, true},
    {"US_TO_NS", rig_us_to_ns, 1000, true}, {"NS_TO_S", rig_ns_to_s, 1000000000, false},
    {"NS_TO_MS", rig_ns_to_ms, 1000000, false}, {"NS_TO_US", rig_ns_to_us, 1000, false}};
  static const std::vector<int64_t> xs = [] {
      std::set<int64_t> s;
      for (int64_t b : {(int64_t)0, (int64_t)INT16_MAX, (int64_t)INT32_MAX, (int64_t)UINT32_MAX, INT64_MAX / 1000000000,
          INT64_MAX / 1000000, INT64_MAX / 1000, (int64_t)1000, (int64_t)1000000, (int64_t)1000000000, (int64_t)999999999,
          (int64_t)1700000000, (int64_t)2147484, (int64_t)2147, (int64_t)4294967, (int64_t)3, (int64_t)1500000000})
      {
        for (int d = -2; d <= 2; ++d) {s.insert(b + d); s.insert(-b + d);}
        s.insert(b * 2 + 1); s.insert(-b * 2 - 1);
      }
      for (int d = 0; d < 3; ++d) {s.insert(INT64_MAX - d); s.insert(INT64_MIN + d);}
      for (int k = 0; k < 63; ++k) {s.insert((int64_t)1 << k); s.insert(((int64_t)1 << k) - 1); s.insert(-((int64_t)1 << k));}
      return std::vector<int64_t>(s.begin(), s.end());
    }();
  const U & u = us[c.choose(6)];
  int form = c.choose(11);
  int64_t x = xs[(size_t)c.choose((int)xs.size())];
  if (form == 1) {x = (int32_t)x;} else if (form == 2) {x = (uint32_t)x;} else if (form == 3) {x = (int16_t)x;}
  if (form == 6 && x == INT64_MIN) {x = INT64_MIN + 1;}       // its halves cannot be negated and added
  i128 want = u.mul ? (i128)x * u.k : (i128)x / u.k;
  if (form == 7) {want = -want;}
  c.note("%s of %lld, form %d", u.n, (long long)x, form);
  if (want > INT64_MAX || want < INT64_MIN || (u.mul && ((i128)x * u.k < INT64_MIN || (i128)x * u.k > INT64_MAX))) {return;}
  int64_t got = u.f(form, x);
  MC_CHECK(
    got == (int64_t)want, "units:value", "RCUTILS_%s of %lld (form %d) is %lld, expected %lld", u.n, (long long)x, form,
    (long long)got, (long long)want);
  if (u.mul) {
    int64_t back = us[&u - us + 3].f(0, u.f(0, x));
    MC_CHECK(back == x, "units:back", "RCUTILS_%s of %lld converts back to %lld", u.n, (long long)x, (long long)back);
  }
  c.outcome(fmt("%lld", (long long)got));
}
void unit_constants(mc::Ctx & c)
{
  static const int64_t want[] = {1000000000, 9223372036000000000, 86400000000000, -5000000000, 9223372036, -1, -9223372036854775};
  int i = c.choose(7);
  MC_CHECK(
    rig_constant(i) == want[i], "units:constant", "constant %d is %lld, expected %lld", i, (long long)rig_constant(i),
    (long long)want[i]);
  c.outcome(fmt("%d", i));
}

// ------------------------------------------------------------------ C43 checking and reporting macros
bool ends_with(const std::string & s, const std::string & e)
{
  return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}
void check_macros(mc::Ctx & c)
{
  rcutils_reset_error();
  static int thing, other_thing;
  bool alloc = c.flip();
  int form = c.choose(alloc ? 4 : 11);
  bool prior = c.flip();
  if (prior) {rcutils_set_error_state("before", "b.c", 3);}
  static const char * const msgs[] = {"a message", "", "100% %s %d", nullptr};
  std::string msg = c.choose(4) < 3 ? msgs[c.path[c.pos - 1].c] : text_of(900, 1);
  Exact em(msg);
  bool ok;
  int r;
  Capture cap;
  std::string want = msg;
  bool sets = true;
  if (alloc) {
    rcutils_allocator_t d = rcutils_get_default_allocator(), a = d;
    int bits = c.choose(17);
    if (!(bits & 1)) {a.allocate = nullptr;}
    if (!(bits & 2)) {a.deallocate = nullptr;}
    if (!(bits & 4)) {a.reallocate = nullptr;}
    if (!(bits & 8)) {a.zero_allocate = nullptr;}
    ok = bits == 15;
    sets = form >= 2;
    c.note("allocator check %d with functions %d, %s", form, bits, prior ? "an error set" : "no error");
    r = rig_check_allocator(form, bits == 16 ? nullptr : &a, em.p);
  } else {
    void * vals[] = {nullptr, &thing};
    void * p = c.pick(vals), * o = c.flip() ? (void *)&other_thing : nullptr;
    ok = p != nullptr;
    c.note("null check %d of %s, %s", form, p ? "an address" : "null", prior ? "an error set" : "no error");
    if (form == 0) {want = "p argument is null";}
    if (form == 10) {want = "a[1] argument is null";}
    r = rig_check(form, p, o, em.p);
  }
  MC_CHECK(
    r == (ok ? 0 : 11), "macros:result", "%s check %d of a%s value gave %d", alloc ? "allocator" : "null", form,
    ok ? " good" : "n invalid", r);
  if (ok || !sets) {
    MC_CHECK(
      rcutils_error_is_set() == prior, "macros:error", "a check %s the error state", prior ? "reset" : "set");
    if (prior) {
      MC_CHECK(
        !strcmp(rcutils_get_error_string().str, "before, at b.c:3"), "macros:error", "a check changed the error to %s",
        rcutils_get_error_string().str);
    }
    MC_CHECK(os::err.empty(), "macros:noise", "a check wrote %s", q(os::err).c_str());
  } else {
    const rcutils_error_state_t * st = rcutils_get_error_state();
    MC_CHECK(rcutils_error_is_set() && st, "macros:error", "a failing check set no error");
    want = want.substr(0, 767);
    MC_CHECK(want == st->message, "macros:message", "the message is %s, expected %s", q(st->message).c_str(), q(want).c_str());
    MC_CHECK(ends_with(st->file, "check_rig.c"), "macros:file", "the error is reported at %s", st->file);
    MC_CHECK(st->line_number > 50 && st->line_number < 110, "macros:line", "the error is reported at line %d", (int)st->line_number);
  }
  c.outcome(fmt("%d %d %d %d", alloc, form, ok, prior));
  rcutils_reset_error();
}
void report_macros(mc::Ctx & c, int max)
{
  rcutils_reset_error();
  static const int same[] = {0, 1, 2, 3, 4, 5, 6, 7, 1, 3, 5, 6, 4, 2, 3, 5};    // what each form has to do
  int asked = c.choose(16), form = same[asked];
  int prior = c.choose(4);
  std::string before;
  if (prior) {
    before = prior == 1 ? "before" : text_of(prior == 2 ? 700 : 767, 3);
    rcutils_set_error_state(ro(before), "b.c", 3);
    before += ", at b.c:3";
  }
  std::string s;
  int len = c.choose(max + 3);
  static const char * const special[] = {"%s%n%d", "a\nb\n"};
  s = len > max ? special[len - max - 1] : text_of((size_t)len, 2);
  Exact e(s);
  int n = c.flip() ? -2147483647 : 5;
  std::string fs = (fmt("%d:", n) + s).substr(0, 1023);
  c.note("report %d of %d characters, previous error of %zu", asked, len, before.size());
  int line;
  std::string err;
  {
    Capture cap;
    line = rig_report(asked, e.p, n);
  }
  err = os::err;
  std::string on_err, message;
  bool set = prior != 0;
  std::string append = prior ? ": " + before : "";
  switch (form) {
    case 0: on_err = s; break;
    case 1: on_err = fs; break;
    case 2: message = s; break;
    case 3: message = fs; break;
    case 4: on_err = s + append.substr(0, 1023); set = false; break;
    case 5: on_err = fs + append.substr(0, 1023); set = false; break;
    case 6: message = (fmt("%d:", n) + s + append).substr(0, 1023); break;
    default: message = ("fixed" + append).substr(0, 1023); break;
  }
  bool sets = form == 2 || form == 3 || form >= 6;
  if (sets) {
    const rcutils_error_state_t * st = rcutils_get_error_state();
    MC_CHECK(rcutils_error_is_set() && st, "macros:error", "report %d set no error", form);
    MC_CHECK(
      message.substr(0, 767) == st->message, "macros:message", "report %d set the message %s, expected %s", form,
      q(st->message).c_str(), q(message.substr(0, 767)).c_str());
    MC_CHECK(
      st->line_number == (uint64_t)line && !strcmp(st->file, rig_file()), "macros:place", "report %d is placed at %s:%d", form,
      st->file, (int)st->line_number);
    bool replaces = prior && (form == 2 || form == 3) && message != before && message.substr(0, 767) != before.substr(0, before.size() - 10);
    // a message longer than the state can hold is documented to be announced as truncated
    if (!replaces && !(prior && form <= 3) && message.size() < 767) {MC_CHECK(err.empty(), "macros:noise", "report %d wrote %s to stderr", form, q(err).c_str());}
    if (replaces) {
      MC_CHECK(err.find(before) != std::string::npos, "macros:overwrite", "replacing %s was not reported", q(before).c_str());
    }
  } else {
    MC_CHECK(err == on_err, "macros:text", "report %d wrote %s, expected %s", form, q(err).c_str(), q(on_err).c_str());
    MC_CHECK(rcutils_error_is_set() == set, "macros:error", "after report %d an error is%s set", form, set ? " not" : "");
    if (set) {MC_CHECK(before == rcutils_get_error_string().str, "macros:error", "report %d changed the error state", form);}
  }
  c.outcome(fmt("%d %d %d %d", asked, prior, len, n));
  rcutils_reset_error();
}

// ------------------------------------------------------------------ C44 fault-injection macros
void fault_programs(mc::Ctx & c, int depth)
{
  rcutils_reset_error();
  int n = c.choose(depth + 1);
  std::vector<int> p;
  for (int i = 0; i < n; ++i) {p.push_back(c.choose(7));}
  RigFault f{};
  f.stop = c.flip();
  f.prior = c.flip();
  static const int64_t starts[] = {-1, 0, 2, -5, 1000, INT64_MAX, INT64_MIN, 4294967296};
  int64_t start = c.pick(starts);
  std::vector<int> points;      // positions that evaluate a fault point
  for (int i = 0; i < n; ++i) {if (p[(size_t)i] != 4 && p[(size_t)i] != 5) {points.push_back(i);}}
  int K = (int)points.size();
  std::string text;
  for (int x : p) {text += fmt("%d", x);}
  bool whole = c.flip();
  Capture cap;
  if (whole) {
    c.note("test of program %s, %s, count %lld before%s", text.c_str(), f.stop ? "ending at a failure" : "going on", (long long)start,
      f.prior ? ", with an older error" : "");
    rcutils_fault_injection_set_count(start);
    rig_fault_test(p.data(), n, &f);
    rcutils_fault_injection_set_count(-1);
    MC_CHECK(
      !f.endless && f.runs == K + 1, "faults:runs", "a program with %d fault points was run %d times%s", K, f.runs,
      f.endless ? " and more" : "");
    MC_CHECK(f.nfail == K, "faults:failures", "a program with %d fault points failed %d times", K, f.nfail);
    for (int i = 0; i < K; ++i) {
      MC_CHECK(
        f.fail_run[i] == i && f.fail_at[i] == points[(size_t)i], "faults:order",
        "failure %d came in run %d at step %d, expected at step %d", i, f.fail_run[i], f.fail_at[i], points[(size_t)i]);
    }
    MC_CHECK(f.final_count == -1, "faults:final", "the count is %lld after the test", (long long)f.final_count);
  } else {
    c.note("program %s, %s, from count %lld", text.c_str(), f.stop ? "ending at a failure" : "going on", (long long)start);
    rcutils_fault_injection_set_count(start);
    rig_fault_run(p.data(), n, &f);
    rcutils_fault_injection_set_count(-1);
    bool hit = start >= 0 && start < K;
    int64_t want = start < 0 ? start : hit ? -1 : start - K;
    MC_CHECK(f.nfail == (hit ? 1 : 0), "faults:failures", "from count %lld %d of %d points failed", (long long)start, f.nfail, K);
    if (hit) {MC_CHECK(f.fail_at[0] == points[(size_t)start], "faults:order", "step %d failed", f.fail_at[0]);}
    MC_CHECK(
      f.final_count == want, "faults:final", "the count is %lld after the program, expected %lld", (long long)f.final_count,
      (long long)want);
  }
  MC_CHECK(!f.quiet_failed, "faults:quiet", "a point failed where fault injection is switched off");
  MC_CHECK(!f.wrong_value, "faults:value", "a failing point gave the wrong result");
  int msgs = 0;
  for (int i = 0; i < f.nfail && i < 64; ++i) {msgs += p[(size_t)f.fail_at[i]] == 3;}
  MC_CHECK(f.messages == msgs, "faults:message", "%d of %d failing points set a message", f.messages, msgs);
  MC_CHECK(!f.state_changed, "faults:state", "a point that sets no message changed the error state");
  MC_CHECK(!rcutils_error_is_set(), "faults:error", "an error is left set");
  c.outcome(fmt("%s %d %d %lld", text.c_str(), f.runs, f.nfail, (long long)f.final_count));
}

// ------------------------------------------------------------------ C32
void options(mc::Ctx & c, int max)
{
  static const char * const words[] = {"-v", "-vv", "", "-", "x", "-V", "--", "-v=x"};
  static const char * const opts[] = {"-v", "", "-vv", "-", "z", "x", "--"};
  int n = c.choose(max + 1);
  std::vector<std::unique_ptr<Exact>> keep;
  std::vector<std::string> w;
  for (int i = 0; i < n; ++i) {
    w.push_back(c.pick(words));
    keep.emplace_back(new Exact(w.back()));
  }
  int b = c.choose(n + 1), e = b + c.choose(n - b + 1);
  const std::string opt = c.pick(opts);
  // the array holds exactly the range, so that reads outside of it are seen
  std::vector<char *> v;
  for (int i = b; i < e; ++i) {v.push_back(keep[(size_t)i]->p);}
  Exact arr((void *)v.data(), v.size() * sizeof(char *));
  char ** beg = (char **)arr.p;
  char ** end = beg + v.size();
  Exact o(opt);
  bool ex = rcutils_cli_option_exist(beg, end, o.p);
  char * got = rcutils_cli_get_option(beg, end, o.p);
  int at = -1;
  for (int i = b; i < e && at < 0; ++i) {if (w[(size_t)i] == opt) {at = i;}}
  char * want = at >= 0 && at + 1 < e ? keep[(size_t)at + 1]->p : nullptr;
  std::string text;
  for (int i = b; i < e; ++i) {text += q(w[(size_t)i]) + " ";}
  c.note("%s in [%s] -> %d, %s", q(opt).c_str(), text.c_str(), ex, q(got).c_str());
  MC_CHECK(ex == (at >= 0), "cli:exist", "option %s in [%s] exists: %d", q(opt).c_str(), text.c_str(), ex);
  MC_CHECK(
    got == want, "cli:get", "option %s in [%s] has value %s, expected %s", q(opt).c_str(), text.c_str(),
    q(got).c_str(), q(want).c_str());
  c.outcome(fmt("%d %s", ex, q(got).c_str()));
  c.state(text + opt);
}

// ------------------------------------------------------------------ C33
void env_check(const std::map<std::string, std::string> & m, const char * const * names, int n, const char * when)
{
  for (int i = 0; i < n; ++i) {
    const char * v = nullptr;
    const char * e = rcutils_get_env(names[i], &v);
    auto it = m.find(names[i]);
    MC_CHECK(e == nullptr, "env:get", "reading %s failed with %s %s", names[i], q(e).c_str(), when);
    std::string w = it == m.end() ? "" : it->second;
    MC_CHECK(
      v != nullptr && w == v, "env:value", "%s is %s %s, expected %s", names[i], q(v).c_str(), when, q(w).c_str());
    const char * sys = getenv(names[i]);
    MC_CHECK((sys != nullptr) == (it != m.end()), "env:presence", "%s is %s set %s", names[i], sys ? "still" : "not",
      when);
  }
}
void environment(mc::Ctx & c, int depth)
{
  static const char * const names[] = {"VP_A", "VP_AB", "VP_", "vp_a"};
  static const char * const odd[] = {"", "VP=A", "=VP_A"};
  static const std::string big = text_of(5000);
  const char * values[] = {"", "1", "a=b c", big.c_str()};
  for (auto & n : names) {__real_unsetenv(n);}
  std::map<std::string, std::string> m;
  os::env_fail = false;
  for (int i = 0; i < depth; ++i) {
    int how = c.choose(7);
    rcutils_reset_error();
    bool r, want = true;
    std::string text;
    if (how <= 2) {                      // 0: set, 1: overwrite, 2: keep
      const char * n = c.pick(names);
      const char * v = c.pick(values);
      Exact en{std::string(n)}, ev{std::string(v)};
      r = how == 0 ? rcutils_set_env(en.p, ev.p) : rcutils_set_env_overwrite(en.p, ev.p, how == 1);
      if (how != 2 || !m.count(n)) {m[n] = v;}
      text = fmt("set %s to %s (mode %d)", n, q(v).c_str(), how);
    } else if (how == 3) {
      const char * n = c.pick(names);
      r = rcutils_set_env(ro(n), nullptr);
      m.erase(n);
      text = fmt("unset %s", n);
    } else if (how == 4) {
      const char * n = c.pick(names);
      r = rcutils_set_env_overwrite(ro(n), nullptr, false);
      text = fmt("set_env_overwrite(%s, NULL, false)", n);
    } else if (how == 5) {
      int k = c.choose(4), over = c.choose(3);
      const char * v = c.flip() ? "v" : nullptr, * n = k == 3 ? nullptr : odd[k];
      r = over == 2 ? rcutils_set_env(n, v) : rcutils_set_env_overwrite(n, v, over != 0);
      want = false;
      text = "set an invalid name";
    } else {
      const char * n = c.pick(names);
      bool un = c.flip();
      os::env_fail = true;
      r = rcutils_set_env(ro(n), un ? nullptr : ro("v"));
      os::env_fail = false;
      want = false;
      text = "failing system call";
    }
    c.note("%s -> %d", text.c_str(), r);
    MC_CHECK(r == want, "env:ret", "%s returned %d", text.c_str(), r);
    MC_CHECK(rcutils_error_is_set() == !want, "env:error", "%s: error set is %d", text.c_str(), want);
    rcutils_reset_error();
    env_check(m, names, 4, "after an operation");
    std::string st;
    for (auto & x : m) {st += x.first + "=" + x.second.substr(0, 9) + ";";}
    c.state(st);
  }
  c.outcome(fmt("%zu", m.size()));
  for (auto & n : names) {__real_unsetenv(n);}
}
void env_args(mc::Ctx & c)
{
  bool nn = c.flip(), nv = c.flip();
  const char * v = "keep";
  const char * e = rcutils_get_env(nn ? nullptr : "VP_A", nv ? nullptr : &v);
  if (nn || nv) {
    MC_CHECK(e != nullptr && *e, "env:args", "a null argument gave no error text");
    MC_CHECK(strcmp(v, "keep") == 0, "env:args", "output changed on an error");
  }
  static const char * const homes[] = {nullptr, "", "/", "/home/u", "rel"};
  const char * h = c.pick(homes);
  const char * old = getenv("HOME");
  std::string keep = old ? old : "";
  if (h) {__real_setenv("HOME", h, 1);} else {__real_unsetenv("HOME");}
  const char * got = rcutils_get_home_dir();
  bool ok = (h && *h) ? (got && strcmp(got, h) == 0) : got == nullptr;
  std::string gt = q(got);
  if (old) {__real_setenv("HOME", keep.c_str(), 1);}
  MC_CHECK(ok, "env:home", "with HOME %s the home directory is %s", q(h).c_str(), gt.c_str());
  c.outcome(gt);
}

// ------------------------------------------------------------------ C34
std::string lib_path(int i) {return mc::cfg().out + fmt("/libvp%d.so", i);}
bool loaded_in_process(const std::string & p)
{
  void * h = __real_dlopen(p.c_str(), RTLD_LAZY | RTLD_NOLOAD);
  if (h) {__real_dlclose(h);}
  return h != nullptr;
}
void build_libs()
{
  for (int i = 0; i < 2; ++i) {
    std::string src = mc::cfg().out + fmt("/vp%d.c", i);
    FILE * f = fopen(src.c_str(), "w");
    fprintf(
      f, "int vp_common = %d; int vp_only%d(void) {return %d;}\n"
      "__asm__(\".globl vp_null\\n vp_null = 0\\n\");\n", i + 10, i, i + 20);
    fclose(f);
    std::string cmd = "gcc -shared -fPIC -o " + lib_path(i) + " " + src;
    if (system(cmd.c_str()) != 0) {fprintf(stderr, "cannot build a shared library\n"); abort();}
  }
  FILE * f = fopen((mc::cfg().out + "/libbroken.so").c_str(), "w");
  fputs("not a library", f);
  fclose(f);
}
struct LibModel {int lib = -1;};
struct Closer
{
  rcutils_shared_library_t * h;
  ~Closer() {for (int i = 0; i < 2; ++i) {if (h[i].lib_pointer) {__real_dlclose(h[i].lib_pointer);}}}
};
void libraries(mc::Ctx & c, int depth, bool second_handle)
{
  Env e("library");
  rcutils_allocator_t zero = rcutils_get_zero_initialized_allocator();
  int nh = second_handle ? 2 : 1;
  rcutils_shared_library_t H[2] = {rcutils_get_zero_initialized_shared_library(),
    rcutils_get_zero_initialized_shared_library()};
  Closer closer{H};
  LibModel m[2];
  static const char * const syms[] = {"vp_common", "vp_only0", "vp_only1", "vp_none", "vp_null", ""};
  for (int i = 0; i < depth; ++i) {
    int w = nh == 1 ? 0 : c.choose(2);
    int op = c.choose(11);
    rcutils_reset_error();
    rcutils_shared_library_t & h = H[w];
    rcutils_ret_t r = 0, want = 0;
    os::dl_fail = 0;
    e.T.plan(0, 0);
    bool was = m[w].lib >= 0;
    switch (op) {
      case 0: case 1:
        r = rcutils_load_shared_library(&h, ro(lib_path(op)), e.A);
        want = was ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK;
        if (!was) {m[w].lib = op;}
        break;
      case 2:
        r = rcutils_load_shared_library(&h, ro(mc::cfg().out + "/libmissing.so"), e.A);
        want = was ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_ERROR;
        break;
      case 3:
        r = rcutils_load_shared_library(&h, ro(mc::cfg().out + "/libbroken.so"), e.A);
        want = was ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_ERROR;
        break;
      case 4: {
          e.T.plan(1, 1);
          r = rcutils_load_shared_library(&h, ro(lib_path(0)), e.A);
          want = was ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_BAD_ALLOC;
          e.T.plan(0, 0);
          break;
        }
      case 5:
        os::dl_fail = 2;
        r = rcutils_load_shared_library(&h, ro(lib_path(1)), e.A);
        os::dl_fail = 0;
        want = was ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_ERROR;
        break;
      case 6: {
          int k = c.choose(3);
          r = k == 0 ? rcutils_load_shared_library(&h, nullptr, e.A) :
            k == 1 ? rcutils_load_shared_library(&h, ro(lib_path(0)), zero) :
            rcutils_load_shared_library(nullptr, ro(lib_path(0)), e.A);
          want = RCUTILS_RET_INVALID_ARGUMENT;
          break;
        }
      case 7:
        r = rcutils_unload_shared_library(&h);
        want = was ? RCUTILS_RET_OK : RCUTILS_RET_INVALID_ARGUMENT;
        m[w].lib = -1;
        break;
      case 8:
        os::dl_fail = 3;
        r = rcutils_unload_shared_library(&h);
        os::dl_fail = 0;
        want = was ? RCUTILS_RET_ERROR : RCUTILS_RET_INVALID_ARGUMENT;
        m[w].lib = -1;
        break;
      case 9: {
          // a library that is already loaded by somebody else
          void * other = __real_dlopen(lib_path(0).c_str(), RTLD_LAZY);
          r = rcutils_load_shared_library(&h, ro(lib_path(0)), e.A);
          want = was ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK;
          if (!was) {m[w].lib = 0;}
          __real_dlclose(other);
          break;
        }
      default:
        r = rcutils_unload_shared_library(nullptr);
        want = RCUTILS_RET_INVALID_ARGUMENT;
        break;
    }
    c.note("handle %d op %d -> %d", w, op, r);
    MC_CHECK(r == want, "library:ret", "operation %d on a %s handle returned %d, expected %d", op,
      was ? "loaded" : "unloaded", r, want);
    // (an invalid allocator is rejected without a message)
    bool quiet = op == 6;
    MC_CHECK(quiet || rcutils_error_is_set() == (r != 0), "library:error", "operation %d: error state does not match",
      op);
    rcutils_reset_error();
    for (int k = 0; k < nh; ++k) {
      bool ld = rcutils_is_shared_library_loaded(&H[k]);
      MC_CHECK(ld == (m[k].lib >= 0), "library:loaded", "handle %d is loaded: %d after operation %d", k, ld, op);
      if (m[k].lib >= 0) {
        MC_CHECK(
          H[k].library_path && lib_path(m[k].lib) == H[k].library_path, "library:path",
          "the path of the loaded library is %s", q(H[k].library_path).c_str());
      }
      for (auto s : syms) {
        bool there = m[k].lib >= 0 && (strcmp(s, "vp_common") == 0 || s == std::string(fmt("vp_only%d", m[k].lib)));
        bool has = rcutils_has_symbol(&H[k], s);
        MC_CHECK(has == there, "library:has", "has_symbol(%s) is %d on handle %d", q(s).c_str(), has, k);
        void * p = rcutils_get_symbol(&H[k], s);
        MC_CHECK((p != nullptr) == there, "library:get", "get_symbol(%s) gave %s on handle %d", q(s).c_str(),
          p ? "a symbol" : "NULL", k);
        MC_CHECK(rcutils_error_is_set() == !there, "library:get", "get_symbol(%s): error state does not match",
          q(s).c_str());
        rcutils_reset_error();
        if (p && strcmp(s, "vp_common") == 0) {
          MC_CHECK(*(int *)p == m[k].lib + 10, "library:value", "symbol of another library");
        }
      }
      MC_CHECK(!rcutils_has_symbol(&H[k], nullptr), "library:has", "has_symbol(NULL)");
      MC_CHECK(!rcutils_get_symbol(&H[k], nullptr), "library:get", "get_symbol(NULL)");
      rcutils_reset_error();
    }
    for (int l = 0; l < 2; ++l) {
      bool need = m[0].lib == l || (nh == 2 && m[1].lib == l);
      MC_CHECK(loaded_in_process(lib_path(l)) == need, "library:process", "library %d is %sloaded after operation %d",
        l, need ? "not " : "still ", op);
    }
    c.state(fmt("%d %d", m[0].lib, m[1].lib));
  }
  for (int k = 0; k < nh; ++k) {
    if (m[k].lib >= 0) {
      MC_CHECK(rcutils_unload_shared_library(&H[k]) == RCUTILS_RET_OK, "library:unload", "final unload failed");
    }
  }
  e.clean("after unloading");
  c.outcome(fmt("%d %d", m[0].lib, m[1].lib));
}
void library_names(mc::Ctx & c, int max)
{
  bool debug = c.flip();
  size_t n = (size_t)c.choose(max + 1);
  int delta = c.choose(12);
  std::string name = text_of(n);
  std::string want = "lib" + name + (debug ? "d" : "") + ".so";
  int size = delta == 11 ? 0 : (int)want.size() + 1 + delta - 5;
  if (size < 0) {size = 0;}
  Exact in(name), out((size_t)size);
  rcutils_reset_error();
  rcutils_ret_t r = rcutils_get_platform_library_name(in.p, out.p, (unsigned)size, debug);
  bool fits = (size_t)size >= want.size() + 1;
  MC_CHECK(
    r == (fits ? RCUTILS_RET_OK : RCUTILS_RET_ERROR), "libname:ret",
    "the name of %zu characters (debug %d) with a buffer of %d returned %d", n, debug, size, r);
  if (fits) {
    MC_CHECK(want == out.p, "libname:text", "the platform name is %s, expected %s", q(out.p).c_str(), q(want).c_str());
  }
  MC_CHECK(rcutils_error_is_set() == !fits, "libname:error", "error state does not match");
  rcutils_reset_error();
  c.note("%s, %d -> %d", q(want).c_str(), size, r);
  c.outcome(fmt("%d %s", r, want.c_str()));
}
void library_name_args(mc::Ctx & c)
{
  bool a = c.flip(), b = c.flip();
  char out[32] = "keep";
  rcutils_ret_t r = rcutils_get_platform_library_name(a ? nullptr : "x", b ? nullptr : out, 32, c.flip());
  if (a || b) {
    MC_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && !strcmp(out, "keep"), "libname:args", "null argument returned %d", r);
  }
  rcutils_reset_error();
}

// ------------------------------------------------------------------ C36
int low(unsigned char x) {return x >= 'A' && x <= 'Z' ? x + 32 : x;}
int sign(int v) {return v < 0 ? -1 : v > 0;}
int case_oracle(const std::string & a, const std::string & b, size_t n)
{
  for (size_t i = 0; i < n; ++i) {
    int x = low((unsigned char)a.c_str()[i]), y = low((unsigned char)b.c_str()[i]);
    if (x != y) {return x < y ? -1 : 1;}
    if (!x) {return 0;}
  }
  return 0;
}
void case_pairs(mc::Ctx & c, int max)
{
  static const char chars[] = "aAzZ[@\xe9";
  std::string a = all_strings(c, chars, max), b = all_strings(c, chars, max);
  Exact ea(a), eb(b);
  int v = 77;
  MC_CHECK(rcutils_strcasecmp(ea.p, eb.p, &v) == 0, "case:ret", "strcasecmp failed");
  MC_CHECK(
    sign(v) == case_oracle(a, b, SIZE_MAX), "case:value", "strcasecmp(%s, %s) gives %d", q(a).c_str(), q(b).c_str(), v);
  for (size_t n = 0; n <= (size_t)max + 2; ++n) {
    size_t lim = n == (size_t)max + 2 ? SIZE_MAX : n;
    v = 77;
    MC_CHECK(rcutils_strncasecmp(ea.p, eb.p, lim, &v) == 0, "case:ret", "strncasecmp failed");
    MC_CHECK(
      sign(v) == case_oracle(a, b, lim), "ncase:value", "strncasecmp(%s, %s, %zu) gives %d", q(a).c_str(),
      q(b).c_str(), lim, v);
  }
  // a string and itself, by the same pointer
  v = 77;
  MC_CHECK(rcutils_strcasecmp(ea.p, ea.p, &v) == 0 && v == 0, "case:same", "%s and itself compare as %d", q(a).c_str(), v);
  v = 77;
  MC_CHECK(
    rcutils_strncasecmp(ea.p, ea.p, b.size(), &v) == 0 && v == 0, "case:same", "%s and itself compare as %d", q(a).c_str(), v);
  c.note("%s %s", q(a).c_str(), q(b).c_str());
  c.outcome(fmt("%d", sign(v)));
  c.state(a + "|" + b);
}
// strings without a terminator are read up to the limit only
void case_limits(mc::Ctx & c)
{
  size_t n = (size_t)c.choose(70);
  size_t at = (size_t)c.choose((int)n + 1);
  std::string a = text_of(n), b = a;
  for (auto & x : b) {x = (char)(x - 32);}
  if (at < n) {b[at] = (char)(b[at] == 'Z' ? 'Y' : b[at] + 1);}
  Exact ea(a.data(), n), eb(b.data(), n);
  int v = 77;
  if (n) {
    MC_CHECK(rcutils_strncasecmp(ea.p, eb.p, n, &v) == 0, "case:ret", "strncasecmp failed");
    MC_CHECK(sign(v) == case_oracle(a, b, n), "ncase:long", "difference at %zu of %zu gives %d", at, n, v);
    v = 77;
    MC_CHECK(rcutils_strncasecmp(ea.p, eb.p, at, &v) == 0 && v == 0, "ncase:prefix", "equal prefix of %zu differs", at);
  }
  v = 77;
  MC_CHECK(rcutils_strcasecmp(ro(a), ro(b), &v) == 0, "case:ret", "strcasecmp failed");
  MC_CHECK(sign(v) == case_oracle(a, b, SIZE_MAX), "case:long", "difference at %zu of %zu gives %d", at, n, v);
  c.outcome(fmt("%zu %zu", n, at));
}
void case_bytes(mc::Ctx & c)
{
  static const char * const locales[] = {"C", "C.UTF-8"};
  setlocale(LC_ALL, c.pick(locales));
  int x = c.choose(256), y = c.choose(256);
  std::string a, b;
  if (x) {a += (char)x;}
  if (y) {b += (char)y;}
  int v = 77, w = 77;
  int r1 = rcutils_strcasecmp(ro(a), ro(b), &v), r2 = rcutils_strncasecmp(ro(a), ro(b), 1, &w);
  bool al = rcutils_isalnum_no_locale((char)x);
  setlocale(LC_ALL, "C");
  MC_CHECK(r1 == 0 && r2 == 0, "case:ret", "comparison failed");
  MC_CHECK(
    sign(v) == case_oracle(a, b, 9) && sign(w) == case_oracle(a, b, 9), "case:byte",
    "comparing bytes %d and %d gives %d and %d", x, y, v, w);
  bool want = (x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z');
  MC_CHECK(al == want, "isalnum", "byte %d is alphanumeric: %d", x, al);
  c.outcome(fmt("%d %d", sign(v), al));
}
void case_args(mc::Ctx & c)
{
  bool a = c.flip(), b = c.flip(), v = c.flip(), n = c.flip();
  int out = 77;
  const char * x = a ? nullptr : "x", * y = b ? nullptr : "y";
  int * o = v ? nullptr : &out;
  int r = n ? rcutils_strncasecmp(x, y, 1, o) : rcutils_strcasecmp(x, y, o);
  bool bad = a || b || v;
  MC_CHECK(r == (bad ? -1 : 0), "case:args", "null arguments %d%d%d returned %d", a, b, v, r);
  MC_CHECK(!bad || out == 77, "case:args", "output changed on an error");
}

// ------------------------------------------------------------------ C38
void error_texts(mc::Ctx & c)
{
  int k = c.choose(150);
  static const int extra[] = {-1, -5, INT_MIN, INT_MAX, 256, 1000, 65536, 4095, 524};
  int no = k < 141 ? k : extra[k - 141];
  static std::map<int, std::string> memo;
  if (!memo.count(no)) {
    char t[256];
    char * m = strerror_r(no, t, sizeof(t));
    memo[no] = m;
  }
  const std::string & text = memo[no];
  int d = c.choose(14);
  size_t size = d < 6 ? (size_t)d : d < 11 ? text.size() + (size_t)d - 7 : d == 11 ? 1024 : d == 12 ? text.size() / 2 : 60;
  Exact b(size);
  errno = no;
  rcutils_strerror(b.p, size);
  int after = errno;
  if (size) {
    size_t n = strnlen(b.p, size);
    std::string w = text.substr(0, size - 1);
    MC_CHECK(
      n == w.size() && n < size && memcmp(b.p, w.data(), n) == 0, "strerror:text",
      "error %d with a buffer of %zu gives %s, expected %s", no, size, q(b.p, n).c_str(), q(w).c_str());
  }
  (void)after;
  c.note("errno %d, buffer of %zu: %s", no, size, text.c_str());
  c.outcome(text);
  c.state(fmt("%d %zu", no, size));
}
void process_ids(mc::Ctx & c)
{
  int k = c.choose(3);
  pid_t me = (pid_t)syscall(SYS_getpid);
  if (k == 0) {
    MC_CHECK(rcutils_get_pid() == (int)me, "pid", "the process id is %d instead of %d", rcutils_get_pid(), (int)me);
    return;
  }
  int before = k == 1 ? rcutils_get_pid() : 0;
  (void)before;
  int fd[2];
  if (pipe(fd) != 0) {throw mc::Divergence{"pipe"};}
  pid_t p = fork();
  if (p == 0) {
    int v[2] = {rcutils_get_pid(), (int)syscall(SYS_getpid)};
    ssize_t n = write(fd[1], v, sizeof(v));
    _exit(n == (ssize_t)sizeof(v) ? 0 : 1);
  }
  close(fd[1]);
  int v[2] = {0, 0};
  ssize_t n = read(fd[0], v, sizeof(v));
  close(fd[0]);
  int st;
  waitpid(p, &st, 0);
  MC_CHECK(n == (ssize_t)sizeof(v) && v[1] == (int)p, "pid:fork", "no report from the child");
  MC_CHECK(v[0] == (int)p, "pid:fork", "after a fork the process id is %d instead of %d", v[0], (int)p);
  MC_CHECK(rcutils_get_pid() == (int)me, "pid", "the process id changed");
  c.outcome("fork");
}
std::string base_oracle(std::string s)
{
  if (s.empty()) {return ".";}
  while (s.size() > 1 && s.back() == '/') {s.pop_back();}
  if (s == "/") {return s;}
  size_t p = s.rfind('/');
  return p == std::string::npos ? s : s.substr(p + 1);
}
void executable_names(mc::Ctx & c, int max)
{
  Env e("exename");
  std::string name = c.flip() ? all_strings(c, "/ab.", max) :
    text_of((size_t)c.choose(40)) + "/" + text_of((size_t)c.choose(40));
  Exact keep(name);
  char * old = program_invocation_name;
  program_invocation_name = keep.p;
  char * got = rcutils_get_executable_name(e.A);
  program_invocation_name = old;
  c.note("%s -> %s", q(name).c_str(), q(got).c_str());
  MC_CHECK(name == keep.p, "exename:input", "the invocation name was changed");
  c.outcome(base_oracle(name));
  e.take(got, base_oracle(name), ("executable name of " + q(name)).c_str());
  e.clean("after an executable name");
}

// ------------------------------------------------------------------ C39
int cmp_size;
int cmp_mode;
long compares;
int compare(const void * a, const void * b)
{
  ++compares;
  // the key is the last byte, so that the whole element has to move
  int x = ((const unsigned char *)a)[cmp_size - 1], y = ((const unsigned char *)b)[cmp_size - 1];
  switch (cmp_mode) {
    case 0: return x < y ? -1 : x > y;
    case 1: return y < x ? -1 : y > x;
    case 2: return (x & 1) - (y & 1);
    default: return 0;
  }
}
void sorted(const std::vector<int> & keys, size_t size, int mode, bool tag)
{
  Exact b(keys.size() * size, 0);
  std::vector<std::string> in, out;
  for (size_t i = 0; i < keys.size(); ++i) {
    for (size_t j = 0; j + 1 < size; ++j) {b.p[i * size + j] = (char)(tag ? i * 31 + j * 7 : 0);}
    b.p[i * size + size - 1] = (char)keys[i];
    in.push_back(std::string(b.p + i * size, size));
  }
  cmp_size = (int)size;
  cmp_mode = mode;
  rcutils_reset_error();
  rcutils_ret_t r = rcutils_qsort(b.p, keys.size(), size, compare);
  MC_CHECK(r == RCUTILS_RET_OK, "qsort:ret", "sorting %zu elements returned %d", keys.size(), r);
  for (size_t i = 0; i < keys.size(); ++i) {out.push_back(std::string(b.p + i * size, size));}
  for (size_t i = 0; i + 1 < out.size(); ++i) {
    MC_CHECK(
      compare(out[i].data(), out[i + 1].data()) <= 0, "qsort:order",
      "elements %zu and %zu of %zu (size %zu, comparison %d) are out of order", i, i + 1, keys.size(), size, mode);
  }
  std::sort(in.begin(), in.end());
  std::sort(out.begin(), out.end());
  MC_CHECK(in == out, "qsort:permutation", "the result of sorting %zu elements of size %zu is not a permutation",
    keys.size(), size);
}
void sort_small(mc::Ctx & c, int max)
{
  static const size_t sizes[] = {1, 2, 4, 7, 8, 16, 40};
  size_t size = c.pick(sizes);
  int mode = c.choose(4);
  int n = c.choose(max + 1);
  std::vector<int> k;
  for (int i = 0; i < n; ++i) {k.push_back(c.choose(3));}
  sorted(k, size, mode, true);
  std::string s;
  for (int v : k) {s += (char)('0' + v);}
  c.note("%s, elements of %zu bytes, comparison %d", s.c_str(), size, mode);
  c.outcome(s);
  c.state(fmt("%zu %d %s", size, mode, s.c_str()));
}
void sort_large(mc::Ctx & c, int max)
{
  static const size_t sizes[] = {1, 3, 4, 8, 24, 100};
  size_t size = c.pick(sizes);
  int mode = c.choose(4);
  int n = c.choose(max + 1);
  int shape = c.choose(5);
  std::vector<int> k;
  for (int i = 0; i < n; ++i) {
    k.push_back(shape == 0 ? i & 255 : shape == 1 ? (n - i) & 255 : shape == 2 ? (i * 97 + 13) & 255 : shape == 3 ?
      i % 3 : (i * i) & 255);
  }
  sorted(k, size, mode, true);
  c.outcome(fmt("%zu %d %d %d", size, mode, n, shape));
}
void sort_args(mc::Ctx & c)
{
  bool np = c.flip(), nc = c.flip();
  static const size_t counts[] = {0, 1, 2, 3};
  size_t n = c.pick(counts);
  char data[4] = "cba";
  cmp_size = 1;
  cmp_mode = 0;
  rcutils_reset_error();
  rcutils_ret_t r = rcutils_qsort(np ? nullptr : data, n, 1, nc ? nullptr : compare);
  rcutils_ret_t want = nc ? RCUTILS_RET_INVALID_ARGUMENT : n <= 1 ? RCUTILS_RET_OK :
    np ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK;
  MC_CHECK(r == want, "qsort:args", "null array %d, null comparison %d, count %zu returned %d", np, nc, n, r);
  MC_CHECK(rcutils_error_is_set() == (want != 0), "qsort:args", "error state does not match");
  if (want || n <= 1) {MC_CHECK(!strcmp(data, "cba"), "qsort:args", "the array was changed");}
  rcutils_reset_error();
}

// ------------------------------------------------------------------ C40
void alloc_history(mc::Ctx & c, int depth, int nblocks)
{
  rcutils_allocator_t A = rcutils_get_default_allocator();
  MC_CHECK(rcutils_allocator_is_valid(&A), "alloc:valid", "the default allocator is invalid");
  static const size_t sizes[] = {0, 1, 24, 3000};
  struct B {char * p = nullptr; std::string want; bool live = false;};
  B b[3];
  auto fillb = [&](B & x, size_t n, int seed) {
      x.want = text_of(n, seed);
      if (n) {memcpy(x.p, x.want.data(), n);}
      x.live = true;
    };
  auto done = [&]() {for (auto & x : b) {if (x.p) {__real_free(x.p);} x.p = nullptr;}};
  auto gone = [&](char * p, const char * how) {
      MC_CHECK(!p || !__sanitizer_get_ownership(p), "alloc:released", "the memory is still allocated after %s", how);
    };
  for (int i = 0; i < depth; ++i) {
    B & x = b[nblocks == 1 ? 0 : c.choose(nblocks)];
    int op = c.choose(5);
    size_t n = op == 4 ? 0 : c.pick(sizes);
    if (op < 2 && x.p) {op += 2;}          // a live block is resized instead
    switch (op) {
      case 0:
        x.p = (char *)A.allocate(n, A.state);
        MC_CHECK(x.p || n == 0, "alloc:null", "allocate(%zu) failed", n);
        if (x.p) {fillb(x, n, i);}
        break;
      case 1: {
          size_t per = c.flip() ? 1 : 8;
          x.p = (char *)A.zero_allocate(per, n, A.state);
          MC_CHECK(x.p || n == 0, "alloc:null", "zero_allocate(%zu, %zu) failed", per, n);
          if (x.p) {
            for (size_t k = 0; k < n * per; ++k) {
              MC_CHECK(x.p[k] == 0, "alloc:zero", "byte %zu of %zu is not zero", k, n * per);
            }
            fillb(x, n * per, i);
          }
          break;
        }
      case 2: case 3: {
          size_t old = x.want.size();
          bool f = op == 3;
          char * p = (char *)(f ? rcutils_reallocf(x.p, n, &A) : A.reallocate(x.p, n, A.state));
          if (n == 0 && x.p) {
            // releases the memory (a valid small block would be fine as well)
            if (p != x.p) {gone(x.p, "reallocating it to nothing");}
            x.p = p;
            x.want.clear();
            break;
          }
          MC_CHECK(p || n == 0, "alloc:null", "reallocate(%zu) failed", n);
          x.p = p;
          if (!p) {x.want.clear(); break;}
          size_t k = old < n ? old : n;
          MC_CHECK(k == 0 || memcmp(p, x.want.data(), k) == 0, "alloc:kept",
            "reallocating %zu to %zu bytes changed the content", old, n);
          fillb(x, n, i);
          break;
        }
      default:
        A.deallocate(x.p, A.state);
        gone(x.p, "deallocate");
        x.p = nullptr;
        x.want.clear();
        break;
    }
    c.note("op %d with %zu bytes", op, n);
    for (auto & y : b) {
      if (y.p) {
        MC_CHECK(y.want.empty() || memcmp(y.p, y.want.data(), y.want.size()) == 0, "alloc:content",
          "a live block was changed");
      }
    }
    c.state(fmt("%zu %zu %zu", b[0].want.size(), b[1].want.size(), b[2].want.size()));
  }
  c.outcome(fmt("%zu %zu", b[0].want.size(), b[1].want.size()));
  done();
}
void alloc_valid(mc::Ctx & c)
{
  bool f[4];
  for (bool & x : f) {x = c.flip();}
  bool st = c.flip();
  rcutils_allocator_t d = rcutils_get_default_allocator(), a = rcutils_get_zero_initialized_allocator();
  MC_CHECK(!a.allocate && !a.deallocate && !a.reallocate && !a.zero_allocate && !a.state, "alloc:zeroinit",
    "the zero-initialized allocator is not zero");
  if (f[0]) {a.allocate = d.allocate;}
  if (f[1]) {a.deallocate = d.deallocate;}
  if (f[2]) {a.reallocate = d.reallocate;}
  if (f[3]) {a.zero_allocate = d.zero_allocate;}
  if (st) {a.state = &a;}
  bool all = f[0] && f[1] && f[2] && f[3];
  MC_CHECK(rcutils_allocator_is_valid(&a) == all, "alloc:valid", "allocator with functions %d%d%d%d is valid: %d", f[0],
    f[1], f[2], f[3], !all);
  MC_CHECK(!rcutils_allocator_is_valid(nullptr), "alloc:valid", "a null allocator is valid");
  if (!all) {
    Capture cap;
    char * p = (char *)malloc(8);
    strcpy(p, "keep");
    void * r = rcutils_reallocf(p, 100, &a);
    MC_CHECK(r == nullptr, "reallocf:invalid", "an invalid allocator gave memory");
    MC_CHECK(!strcmp(p, "keep"), "reallocf:invalid", "memory was touched with an invalid allocator");
    MC_CHECK(rcutils_reallocf(p, 100, nullptr) == nullptr, "reallocf:invalid", "a null allocator gave memory");
    MC_CHECK(!os::err.empty(), "reallocf:report", "a leak by reallocf with an invalid allocator is not reported");
    free(p);
  }
  rcutils_allocator_t z2 = rcutils_get_zero_initialized_allocator();
  MC_CHECK(!z2.state && !z2.allocate, "alloc:zeroinit", "the zero-initialized allocator changed");
  rcutils_reset_error();
}
void alloc_reallocf(mc::Ctx & c, int depth)
{
  Env e("reallocf");
  static const size_t sizes[] = {0, 1, 16, 17, 500};
  char * p = nullptr;
  std::string want;
  for (int i = 0; i < depth; ++i) {
    size_t n = c.pick(sizes);
    bool fault = c.flip();
    e.T.plan(fault ? 1 : 0, fault ? 1 : 0);
    char * r = (char *)rcutils_reallocf(p, n, &e.A);
    bool hit = e.T.failed;
    e.T.plan(0, 0);
    c.note("reallocf to %zu%s", n, hit ? " failing" : "");
    MC_CHECK(e.T.error.empty(), "reallocf:misuse", "reallocf to %zu%s: %s", n, hit ? " failing" : "",
      e.T.error.c_str());
    if (hit || (n == 0 && p)) {
      MC_CHECK(r == nullptr, "reallocf:ret", "reallocf to %zu returned memory", n);
      MC_CHECK(e.T.live.empty(), "reallocf:leak", "the old block is still allocated after reallocf to %zu failed", n);
      p = nullptr;
      want.clear();
    } else {
      MC_CHECK(r != nullptr, "reallocf:ret", "reallocf to %zu returned NULL", n);
      size_t k = std::min(n, want.size());
      MC_CHECK(memcmp(r, want.data(), k) == 0, "reallocf:kept", "content changed");
      p = r;
      want = text_of(n, i);
      memcpy(p, want.data(), n);
      MC_CHECK(e.T.live.size() == 1, "reallocf:leak", "%zu blocks are allocated", e.T.live.size());
    }
    c.state(fmt("%zu", want.size()));
  }
  if (p) {e.A.deallocate(p, e.A.state);}
  e.clean("after reallocf");
  c.outcome(fmt("%zu", want.size()));
}

// ------------------------------------------------------------------ C24
// The default allocator's own fault points decide which allocations fail; the memory itself is tracked.
bool default_allocator_fails(int kind)
{
  static const rcutils_allocator_t D = rcutils_get_default_allocator();
  void * p = kind == 0 ? D.allocate(1, D.state) : kind == 1 ? D.reallocate(nullptr, 1, D.state) :
    D.zero_allocate(1, 1, D.state);
  if (!p) {return true;}
  D.deallocate(p, D.state);
  return false;
}
struct FOp
{
  std::string name;
  std::function<bool()> call;      // true: success
  std::function<void()> model;     // effect of a success
  std::function<bool()> when = nullptr;
};
struct Part
{
  Env & e;
  std::string name;
  explicit Part(Env & env, const char * n)
  : e(env), name(n) {}
  virtual ~Part() {}
  std::vector<FOp> ops;
  virtual void check(const char * when) = 0;
  virtual bool fini() = 0;
  virtual void lost(FOp &) {}      // a failed operation may have had an effect
};
void on(int64_t n) {rcutils_fault_injection_set_count(n);}
bool off()
{
  // true if the fault was delivered
  bool d = rcutils_fault_injection_get_count() <= RCUTILS_FAULT_INJECTION_NEVER_FAIL;
  rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL);
  return d;
}
struct PList : Part
{
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  std::vector<int> m;
  explicit PList(Env & env)
  : Part(env, "array_list")
  {
    if (rcutils_array_list_init(&l, 1, sizeof(int), &e.A) != RCUTILS_RET_OK) {throw mc::Divergence{"init"};}
    ops.push_back({"add", [this]() {int v = 7 + (int)m.size(); return rcutils_array_list_add(&l, &v) == RCUTILS_RET_OK;},
        [this]() {m.push_back(7 + (int)m.size());}});
    ops.push_back({"set", [this]() {int v = 99; return rcutils_array_list_set(&l, 0, &v) == RCUTILS_RET_OK;},
        [this]() {m[0] = 99;}, [this]() {return !m.empty();}});
    ops.push_back({"remove", [this]() {return rcutils_array_list_remove(&l, 0) == RCUTILS_RET_OK;},
        [this]() {m.erase(m.begin());}, [this]() {return !m.empty();}});
  }
  void check(const char * when) override
  {
    size_t n = 99;
    bool ok = rcutils_array_list_get_size(&l, &n) == RCUTILS_RET_OK && n == m.size();
    for (size_t i = 0; ok && i < n; ++i) {
      int v = -1;
      ok = rcutils_array_list_get(&l, i, &v) == RCUTILS_RET_OK && v == m[i];
    }
    MC_CHECK(ok, "fault:array_list", "the array list has lost its content %s", when);
  }
  bool fini() override {return rcutils_array_list_fini(&l) == RCUTILS_RET_OK;}
};
struct PHash : Part
{
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
  std::map<int, int> m;
  static size_t hash(const void * k) {return (size_t)*(const int *)k & 1;}
  static int cmp(const void * a, const void * b) {return *(const int *)a - *(const int *)b;}
  explicit PHash(Env & env)
  : Part(env, "hash_map")
  {
    if (rcutils_hash_map_init(&h, 2, sizeof(int), sizeof(int), hash, cmp, &e.A) != RCUTILS_RET_OK) {
      throw mc::Divergence{"init"};
    }
    for (int k : {1, 3}) {
      ops.push_back({fmt("set %d", k), [this, k]() {
            int key = k, v = k * 10 + (int)m.size();
            return rcutils_hash_map_set(&h, &key, &v) == RCUTILS_RET_OK;
          }, [this, k]() {int v = k * 10 + (int)m.size(); m[k] = v;}});
    }
    ops.push_back({"unset 1", [this]() {int k = 1; return rcutils_hash_map_unset(&h, &k) == RCUTILS_RET_OK;},
        [this]() {m.erase(1);}});
  }
  void check(const char * when) override
  {
    size_t n = 99;
    bool ok = rcutils_hash_map_get_size(&h, &n) == RCUTILS_RET_OK && n == m.size();
    for (int k : {1, 2, 3}) {
      int v = -1;
      rcutils_ret_t r = rcutils_hash_map_get(&h, &k, &v);
      ok = ok && (m.count(k) ? r == RCUTILS_RET_OK && v == m[k] : r == RCUTILS_RET_NOT_FOUND);
      ok = ok && rcutils_hash_map_key_exists(&h, &k) == (m.count(k) > 0);
    }
    MC_CHECK(ok, "fault:hash_map", "the hash map has lost its content %s", when);
  }
  bool fini() override {return rcutils_hash_map_fini(&h) == RCUTILS_RET_OK;}
};
struct PMap : Part
{
  rcutils_string_map_t s = rcutils_get_zero_initialized_string_map();
  rcutils_string_map_t src = rcutils_get_zero_initialized_string_map();
  std::map<std::string, std::string> m;
  bool partial = false;
  explicit PMap(Env & env)
  : Part(env, "string_map")
  {
    if (rcutils_string_map_init(&s, 0, e.A) != RCUTILS_RET_OK ||
      rcutils_string_map_init(&src, 2, e.A) != RCUTILS_RET_OK ||
      rcutils_string_map_set(&src, "a", "copied") != RCUTILS_RET_OK ||
      rcutils_string_map_set(&src, "z", "copied too") != RCUTILS_RET_OK) {throw mc::Divergence{"init"};}
    for (const char * k : {"a", "b"}) {
      ops.push_back({std::string("set ") + k, [this, k]() {
            std::string v = fmt("v%zu", m.size());
            return rcutils_string_map_set(&s, k, ro(v)) == RCUTILS_RET_OK;
          }, [this, k]() {std::string v = fmt("v%zu", m.size()); m[k] = v;}});
    }
    ops.push_back({"unset a", [this]() {return rcutils_string_map_unset(&s, "a") == RCUTILS_RET_OK;},
        [this]() {m.erase("a");}, [this]() {return m.count("a") > 0;}});
    ops.push_back({"clear", [this]() {return rcutils_string_map_clear(&s) == RCUTILS_RET_OK;}, [this]() {m.clear();}});
    ops.push_back({"reserve", [this]() {return rcutils_string_map_reserve(&s, m.size() + 2) == RCUTILS_RET_OK;},
        []() {}});
    ops.push_back({"copy", [this]() {
          bool ok = rcutils_string_map_copy(&src, &s) == RCUTILS_RET_OK;
          if (!ok) {partial = true;}
          return ok;
        }, [this]() {m["a"] = "copied"; m["z"] = "copied too";}});
  }
  void check(const char * when) override
  {
    size_t n = 99;
    bool ok = rcutils_string_map_get_size(&s, &n) == RCUTILS_RET_OK;
    if (partial) {
      // a failed copy may have set some of the source pairs
      for (const char * k : {"a", "z"}) {
        const char * v = rcutils_string_map_get(&s, k);
        const char * w = rcutils_string_map_get(&src, k);
        if (v && w && std::string(v) == w) {m[k] = v;}
      }
      partial = false;
    }
    ok = ok && n == m.size();
    for (const char * k : {"a", "b", "z"}) {
      const char * v = rcutils_string_map_get(&s, k);
      ok = ok && (m.count(k) ? v && m[k] == v : v == nullptr);
    }
    MC_CHECK(ok, "fault:string_map", "the string map has lost its content %s", when);
    const char * v = rcutils_string_map_get(&src, "z");
    MC_CHECK(v && !strcmp(v, "copied too"), "fault:string_map", "the source map was changed %s", when);
  }
  bool fini() override
  {
    bool a = rcutils_string_map_fini(&s) == RCUTILS_RET_OK;
    bool b = rcutils_string_map_fini(&src) == RCUTILS_RET_OK;
    return a && b;
  }
};
struct PStrings : Part
{
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  std::vector<std::string> m;      // "": NULL
  std::vector<char *> cut;         // entries being removed
  // finalizing the removed entries is the last step of a resize; a fault there comes after the resize, and what
  // was to be released is then left to nobody
  void lost(FOp & o) override
  {
    size_t n = o.name == "resize 1" ? 1 : o.name == "resize 3" ? 3 : 0;
    if (!n || a.size != n || m.size() == n) {return;}
    size_t removed = m.size() > n ? m.size() - n : 0;
    o.model();
    for (char * p : cut) {
      MC_CHECK(e.T.live.count((uintptr_t)p), "fault:string_array", "a failed resize has released some entries only");
      e.A.deallocate(p, e.A.state);
    }
    for (auto it = e.T.live.begin(); it != e.T.live.end(); ) {
      auto b = *it++;
      // the array of removed entries
      if (b.second.size == removed * sizeof(char *) && (void *)b.first != (void *)a.data) {
        e.A.deallocate((void *)b.first, e.A.state);
      }
    }
  }
  explicit PStrings(Env & env)
  : Part(env, "string_array")
  {
    if (rcutils_string_array_init(&a, 1, &e.A) != RCUTILS_RET_OK) {throw mc::Divergence{"init"};}
    m.resize(1);
    for (size_t n : {(size_t)1, (size_t)3}) {
      ops.push_back({fmt("resize %zu", n), [this, n]() {
            cut.clear();
            for (size_t i = n; i < a.size; ++i) {if (a.data[i]) {cut.push_back(a.data[i]);}}
            return rcutils_string_array_resize(&a, n) == RCUTILS_RET_OK;
          },
          [this, n]() {m.resize(n);}});
    }
    ops.push_back({"fill", [this]() {
          for (size_t i = 0; i < a.size; ++i) {
            if (a.data[i]) {continue;}
            char * t = rcutils_strdup("text", e.A);
            if (!t) {return false;}
            a.data[i] = t;
            m[i] = "text";
          }
          return true;
        }, []() {}});
    ops.push_back({"sort", [this]() {return rcutils_string_array_sort(&a) == RCUTILS_RET_OK;},
        [this]() {std::sort(m.begin(), m.end(), [](const std::string & x, const std::string & y) {
                return x.empty() ? false : y.empty() ? true : x < y;
              });}});
    ops.push_back({"refill by split", [this]() {
          rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
          if (rcutils_split("b/a", '/', e.A, &t) != RCUTILS_RET_OK) {return false;}
          int64_t left = rcutils_fault_injection_get_count();
          on(-1);
          if (rcutils_string_array_fini(&a) != RCUTILS_RET_OK) {return false;}
          on(left);
          a = t;
          return true;
        }, [this]() {m = {"b", "a"};}});
  }
  void check(const char * when) override
  {
    bool ok = a.size == m.size();
    for (size_t i = 0; ok && i < a.size; ++i) {
      ok = m[i].empty() ? a.data[i] == nullptr : a.data[i] && m[i] == a.data[i];
    }
    MC_CHECK(ok, "fault:string_array", "the string array has lost its content %s", when);
  }
  bool fini() override {return rcutils_string_array_fini(&a) == RCUTILS_RET_OK;}
};
struct PChars : Part
{
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  std::string m;
  bool loose = false;
  static rcutils_ret_t print(rcutils_char_array_t * x, const char * f, ...)
  {
    va_list ap;
    va_start(ap, f);
    rcutils_ret_t r = rcutils_char_array_vsprintf(x, f, ap);
    va_end(ap);
    return r;
  }
  explicit PChars(Env & env)
  : Part(env, "char_array")
  {
    if (rcutils_char_array_init(&a, 0, &e.A) != RCUTILS_RET_OK) {throw mc::Divergence{"init"};}
    ops.push_back({"strcpy", [this]() {return rcutils_char_array_strcpy(&a, "hello") == RCUTILS_RET_OK;},
        [this]() {m = "hello";}});
    ops.push_back({"strcat", [this]() {return rcutils_char_array_strcat(&a, "+more") == RCUTILS_RET_OK;},
        [this]() {m += "+more";}});
    ops.push_back({"print", [this]() {return print(&a, "%d-%s", 12345, "a long text") == RCUTILS_RET_OK;},
        [this]() {m = "12345-a long text";}});
    ops.push_back({"expand", [this]() {return rcutils_char_array_expand_as_needed(&a, 40) == RCUTILS_RET_OK;},
        []() {}});
  }
  void lost(FOp &) override {loose = true;}
  void check(const char * when) override
  {
    std::string got = a.buffer && a.buffer_length ? std::string(a.buffer, strnlen(a.buffer, a.buffer_length)) : "";
    if (loose && got.empty()) {m.clear();}
    loose = false;
    MC_CHECK(got == m && a.buffer_length <= a.buffer_capacity, "fault:char_array", "the char array holds %s %s, expected %s", q(got).c_str(), when,
      q(m).c_str());
  }
  bool fini() override {return rcutils_char_array_fini(&a) == RCUTILS_RET_OK;}
};
struct PBytes : Part
{
  rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array();
  std::string m;
  bool loose = false;
  explicit PBytes(Env & env)
  : Part(env, "uint8_array")
  {
    if (rcutils_uint8_array_init(&a, 4, &e.A) != RCUTILS_RET_OK) {throw mc::Divergence{"init"};}
    memcpy(a.buffer, "abcd", 4);
    a.buffer_length = 4;
    m = "abcd";
    for (size_t n : {(size_t)2, (size_t)9}) {
      ops.push_back({fmt("resize %zu", n), [this, n]() {return rcutils_uint8_array_resize(&a, n) == RCUTILS_RET_OK;},
          [this, n]() {if (m.size() > n) {m.resize(n);}}});
    }
  }
  void lost(FOp &) override {loose = true;}
  void check(const char * when) override
  {
    std::string got = a.buffer ? std::string((char *)a.buffer, a.buffer_length) : "";
    if (loose && got.empty()) {m.clear();}
    loose = false;
    MC_CHECK(got == m && a.buffer_length <= a.buffer_capacity, "fault:uint8_array", "the byte array holds %s %s", q(got).c_str(), when);
  }
  bool fini() override {return rcutils_uint8_array_fini(&a) == RCUTILS_RET_OK;}
};
std::unique_ptr<Part> part_of(int k, Env & e)
{
  switch (k) {
    case 0: return std::make_unique<PList>(e);
    case 1: return std::make_unique<PHash>(e);
    case 2: return std::make_unique<PMap>(e);
    case 3: return std::make_unique<PStrings>(e);
    case 4: return std::make_unique<PChars>(e);
    default: return std::make_unique<PBytes>(e);
  }
}
void fault_parts(mc::Ctx & c, int kind, int depth, int max_points)
{
  Env e("fault");
  on(-1);
  e.T.hook = default_allocator_fails;
  std::unique_ptr<Part> p = part_of(kind, e);
  std::string st;
  for (int i = 0; i < depth; ++i) {
    FOp & o = p->ops[(size_t)c.choose((int)p->ops.size())];
    int n = c.choose(max_points + 1);            // max_points: no fault
    if (o.when && !o.when()) {
      if (n < max_points) {return;}
      continue;
    }
    rcutils_reset_error();
    on(n == max_points ? 1000 : n);
    bool ok = o.call();
    bool hit = off();
    c.note("%s with the fault at point %d: %s%s", o.name.c_str(), n, ok ? "ok" : "error", hit ? ", delivered" : "");
    MC_CHECK(hit || ok, "fault:spurious", "%s failed without a fault", o.name.c_str());
    if (n == max_points - 1 && hit) {throw mc::Divergence{"more fault points than expected in " + o.name};}
    if (n < max_points && !hit) {return;}        // fewer fault points: the same as without a fault
    if (ok) {o.model();} else {p->lost(o);}
    p->check((std::string(ok ? "after " : "after a failed ") + o.name).c_str());
    if (!ok && c.flip()) {
      rcutils_reset_error();
      MC_CHECK(o.call(), "fault:retry", "%s fails again without a fault", o.name.c_str());
      o.model();
      p->check("after repeating a failed operation");
    }
    st += fmt("%d%d", ok, hit);
    c.state(p->name + o.name + st);
  }
  int n = c.choose(max_points + 1);
  on(n == max_points ? 1000 : n);
  bool ok = p->fini();
  bool hit = off();
  if (n < max_points && !hit) {return;}
  MC_CHECK(hit || ok, "fault:fini", "finalizing failed without a fault");
  if (!ok) {
    c.note("fini failed at point %d", n);
    MC_CHECK(p->fini(), "fault:fini", "finalizing again without a fault fails");
  }
  rcutils_reset_error();
  e.clean("after finalizing");
  c.outcome(p->name + st);
}
// initialization under faults
void fault_inits(mc::Ctx & c, int max_points)
{
  Env e("faultinit");
  on(-1);
  e.T.hook = default_allocator_fails;
  int k = c.choose(7);
  int n = c.choose(max_points + 1);
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  rcutils_char_array_t ca = rcutils_get_zero_initialized_char_array();
  rcutils_uint8_array_t ua = rcutils_get_zero_initialized_uint8_array();
  rcutils_shared_library_t lib = rcutils_get_zero_initialized_shared_library();
  auto init = [&]() -> rcutils_ret_t {
      switch (k) {
        case 0: return rcutils_array_list_init(&l, 4, 8, &e.A);
        case 1: return rcutils_hash_map_init(&h, 4, 8, 8, PHash::hash, PHash::cmp, &e.A);
        case 2: return rcutils_string_map_init(&m, 3, e.A);
        case 3: return rcutils_string_array_init(&a, 3, &e.A);
        case 4: return rcutils_char_array_init(&ca, 5, &e.A);
        case 5: return rcutils_uint8_array_init(&ua, 5, &e.A);
        default: return rcutils_load_shared_library(&lib, ro(lib_path(0)), e.A);
      }
    };
  auto fini = [&]() -> rcutils_ret_t {
      switch (k) {
        case 0: return rcutils_array_list_fini(&l);
        case 1: return rcutils_hash_map_fini(&h);
        case 2: return rcutils_string_map_fini(&m);
        case 3: return rcutils_string_array_fini(&a);
        case 4: return rcutils_char_array_fini(&ca);
        case 5: return rcutils_uint8_array_fini(&ua);
        default: return rcutils_unload_shared_library(&lib);
      }
    };
  on(n == max_points ? 1000 : n);
  rcutils_ret_t r = init();
  bool hit = off();
  c.note("init %d with the fault at point %d: %d", k, n, r);
  if (n == max_points - 1 && hit) {throw mc::Divergence{"more fault points than expected"};}
  MC_CHECK(hit || r == RCUTILS_RET_OK, "fault:init", "initialization %d failed without a fault", k);
  if (r != RCUTILS_RET_OK) {
    e.clean("after a failed initialization");
    if (k == 6) {MC_CHECK(!loaded_in_process(lib_path(0)), "fault:init", "the library stays loaded");}
    rcutils_reset_error();
    MC_CHECK(init() == RCUTILS_RET_OK, "fault:init", "initialization %d fails again without a fault", k);
  }
  MC_CHECK(fini() == RCUTILS_RET_OK, "fault:init", "finalizing %d failed", k);
  rcutils_reset_error();
  e.clean("after finalizing");
  c.outcome(fmt("%d %d", k, r));
}
// functions that return something new
void fault_functions(mc::Ctx & c, int max_points)
{
  Env e("faultfn");
  on(-1);
  e.T.hook = default_allocator_fails;
  rcutils_allocator_t D = rcutils_get_default_allocator();
  int k = c.choose(20);
  int n = c.choose(max_points + 1);
  __real_setenv("VP_F", "old", 1);
  __real_setenv("HOME", "/home/u", 1);
  rcutils_time_point_value_t t = 1700000000123456789;
  use_zone(ZONES[0]);
  std::string dir = scratch + "/faultdir";
  mkdir(dir.c_str(), 0755);
  {
    FILE * f = fopen((dir + "/f").c_str(), "w");
    fputs("12345", f);
    fclose(f);
  }
  auto text = [&](char * p, const char * w) {
      if (!p) {return false;}
      e.take(p, w, fmt("function %d", k).c_str());
      return true;
    };
  auto run = [&]() -> bool {
      char buf[64] = "";
      switch (k) {
        case 0: return text(rcutils_strdup("text", e.A), "text");
        case 1: return text(rcutils_strndup("text", 2, e.A), "te");
        case 2: return text(rcutils_format_string(e.A, "%d/%s", 5, "x"), "5/x");
        case 3: return text(rcutils_format_string_limit(e.A, 3, "%d/%s", 5, "x"), "5/");
        case 4: return text(rcutils_repl_str("a-b-c", "-", "++", &e.A), "a++b++c");
        case 5: return text(rcutils_join_path("l", "r", e.A), "l/r");
        case 6: return text(rcutils_to_native_path("l/r", e.A), "l/r");
        case 7: return text(rcutils_expand_user("~/x", e.A), "/home/u/x");
        case 8: case 9: {
            rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
            rcutils_ret_t r = k == 8 ? rcutils_split("a//b/c", '/', e.A, &a) : rcutils_split_last("a/b/c", '/', e.A, &a);
            if (r != RCUTILS_RET_OK) {return false;}
            std::string s;
            for (size_t i = 0; i < a.size; ++i) {s += std::string(a.data[i]) + ",";}
            MC_CHECK(s == (k == 8 ? "a,b,c," : "a/b,c,"), "fault:split", "split gave %s under a fault", s.c_str());
            int64_t left = rcutils_fault_injection_get_count();
            on(-1);
            MC_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, "fault:split", "fini failed");
            on(left);
            return true;
          }
        case 10: {
            uint64_t s = 77;
            if (rcutils_calculate_directory_size(ro(dir), &s, e.A) != RCUTILS_RET_OK) {return false;}
            MC_CHECK(s == 5, "fault:dirsize", "the directory size is %llu under a fault", (unsigned long long)s);
            return true;
          }
        case 11: {
            bool ok = rcutils_set_env("VP_F", "new");
            const char * v = getenv("VP_F");
            MC_CHECK(v && !strcmp(v, ok ? "new" : "old"), "fault:env", "the variable is %s", q(v).c_str());
            return ok;
          }
        case 12: {
            const char * v = "keep";
            const char * err = rcutils_get_env("VP_F", &v);
            MC_CHECK(err ? !strcmp(v, "keep") && *err : !strcmp(v, "old"), "fault:env", "get_env gave %s", q(v).c_str());
            return !err;
          }
        case 13: {
            const char * v = rcutils_get_home_dir();
            MC_CHECK(!v || !strcmp(v, "/home/u"), "fault:home", "the home directory is %s", q(v).c_str());
            return v != nullptr;
          }
        case 14: {
            int r = rcutils_snprintf(buf, sizeof(buf), "%s", "abc");
            MC_CHECK(r == 3 ? !strcmp(buf, "abc") : r == -1, "fault:snprintf", "snprintf returned %d", r);
            return r == 3;
          }
        case 15: case 16: case 17: {
            if (TFN[k - 15](&t, buf, sizeof(buf)) != RCUTILS_RET_OK) {return false;}
            std::string w = k == 15 ? ns_text(t) : k == 16 ? s_text(t) : date_text(t, 0);
            MC_CHECK(w == buf, "fault:time", "the time string is %s under a fault", buf);
            return true;
          }
        case 18: {
            if (rcutils_get_platform_library_name("n", buf, 64, false) != RCUTILS_RET_OK) {return false;}
            MC_CHECK(!strcmp(buf, "libn.so"), "fault:libname", "the library name is %s", buf);
            return true;
          }
        default: {
            rcutils_allocator_t A = D;
            char * p = (char *)A.allocate(4, A.state);
            if (!p) {return false;}
            strcpy(p, "abc");
            char * r = (char *)rcutils_reallocf(p, 8, &A);
            if (!r) {return false;}            // the old block is gone as well
            MC_CHECK(!strcmp(r, "abc"), "fault:reallocf", "content changed");
            A.deallocate(r, A.state);
            return true;
          }
      }
    };
  rcutils_reset_error();
  on(n == max_points ? 1000 : n);
  bool ok = run();
  bool hit = off();
  c.note("function %d with the fault at point %d: %s", k, n, ok ? "ok" : "error");
  if (n == max_points - 1 && hit) {throw mc::Divergence{"more fault points than expected"};}
  MC_CHECK(hit || ok, "fault:spurious", "function %d failed without a fault", k);
  e.clean("after a function under a fault");
  if (!ok) {
    rcutils_reset_error();
    MC_CHECK(run(), "fault:retry", "function %d fails again without a fault", k);
    e.clean("after repeating a function");
  }
  rcutils_reset_error();
  c.outcome(fmt("%d %d", k, ok));
}
void quiet_handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t,
  const char *, va_list *) {}

// ------------------------------------------------------------------ C37
#include "args.hpp"

#include "misc_large.inc"
#include "life.inc"
#include "alias.inc"

void setup_part(const std::string & P)
{
  bool th = mc::cfg().thorough && !calm::pass(), lt = calm::light();
  if (P == "C18") {
    calm::dfs("lengths", [=](mc::Ctx & c) {sha_whole(c, th ? 4200 : 1100);}, 8, 1);
    calm::dfs("two pieces", [=](mc::Ctx & c) {sha_split2(c, th ? 520 : 200);}, 8, 1);
    calm::dfs("three pieces", [=](mc::Ctx & c) {sha_split3(c, th ? 200 : 70);}, 8, 2);
    calm::dfs("pieces", [=](mc::Ctx & c) {sha_pieces(c, th ? 6 : 4);}, 8, 2);
    calm::dfs("contexts", [=](mc::Ctx & c) {sha_contexts(c, th ? 6 : 5);}, 8, 2);
    calm::dfs("totals beyond 2^32 bits", [=](mc::Ctx & c) {sha_big(c, th);}, 8, 1);
  } else if (P == "C19") {
    POINTS = points(th);
    calm::dfs("texts", [=](mc::Ctx & c) {time_strings(c);}, 16, 1);
    calm::dfs("buffer sizes", [=](mc::Ctx & c) {time_sizes(c);}, 16, 1);
    calm::dfs("milliseconds", [=](mc::Ctx & c) {time_millis(c);}, 8, 1);
    calm::dfs("days", [=](mc::Ctx & c) {time_days(c, th ? 1 : 7);}, 16, 1);
    calm::dfs("arguments", time_args);
  } else if (P == "C20") {
    calm::dfs("clock values", clocks, 4, 2);
    calm::dfs("clock sequences", [=](mc::Ctx & c) {clock_sequence(c, th ? 5 : 4);}, 4, 2);
  } else if (P == "C21") {
    calm::dfs("histories", [=](mc::Ctx & c) {err_histories(c, th ? 5 : 4);}, 14, 2);
    calm::dfs("lengths", err_lengths, 8, 2);
    calm::dfs("many errors", err_many, 4, 2);
  } else if (P == "C24") {
    build_libs();
    static const int quick[] = {4, 3, 3, 3, 3, 4}, deep[] = {7, 4, 3, 4, 4, 7};
    for (int k = 0; k < 6; ++k) {
      int depth = th ? deep[k] : quick[k];
      static const char * const n[] = {"array list", "hash map", "string map", "string array", "char array",
        "byte array"};
      calm::dfs(n[k], [=](mc::Ctx & c) {fault_parts(c, k, depth, 16);}, 16, 2);
    }
    calm::dfs("initializations", [=](mc::Ctx & c) {fault_inits(c, 12);}, 2, 1);
    calm::dfs("functions", [=](mc::Ctx & c) {fault_functions(c, 20);}, 4, 1);
  } else if (P == "C32") {
    calm::dfs("options", [=](mc::Ctx & c) {options(c, th ? 6 : lt ? 3 : 4);}, 16, 3);
    calm::dfs("large", options_large, 4, 2);
  } else if (P == "C33") {
    calm::dfs("environment", [=](mc::Ctx & c) {environment(c, th ? 4 : lt ? 2 : 3);}, 16, 2);
    calm::dfs("large", environment_large, 4, 2);
    calm::dfs("arguments", env_args);
  } else if (P == "C34") {
    build_libs();
    calm::dfs("one handle", [=](mc::Ctx & c) {libraries(c, th ? 5 : lt ? 3 : 4, false);}, 16, 2);
    calm::dfs("two handles", [=](mc::Ctx & c) {libraries(c, th ? 4 : lt ? 2 : 3, true);}, 16, 2);
    calm::dfs("many", libraries_many, 4, 2);
    calm::dfs("names", [=](mc::Ctx & c) {library_names(c, th ? 400 : 120);}, 4, 2);
    calm::dfs("name arguments", library_name_args);
  } else if (P == "C36") {
    calm::dfs("pairs", [=](mc::Ctx & c) {case_pairs(c, th ? 4 : lt ? 2 : 3);}, 16, 3);
    calm::dfs("limits", case_limits, 4, 1);
    calm::dfs("large", case_large, 4, 1);
    calm::dfs("bytes", case_bytes, 8, 2);
    calm::dfs("arguments", case_args);
  } else if (P == "C37") {
    build_libs();
    args_table();
    for (size_t i = 0; i < ARGS.size(); ++i) {
      calm::dfs(ARGS[i].name, [i](mc::Ctx & c) {args_run(c, (int)i, (int)i + 1);}, i == 7 ? 4 : 1, i == 7 ? 3 : 1);
    }
  } else if (P == "C48") {
    build_libs();
    args_table();
    for (size_t i = 0; i < ARGS.size(); ++i) {
      mc::dfs(ARGS[i].name, [i](mc::Ctx & c) {args_run(c, (int)i, (int)i + 1, calm::on());});
    }
  } else if (P == "C38") {
    calm::dfs("error texts", error_texts, 8, 1);
    calm::dfs("process ids", process_ids);
    calm::dfs("long executable names", executable_names_large);
    calm::dfs("executable names", [=](mc::Ctx & c) {executable_names(c, th ? 8 : lt ? 3 : 6);}, 8, 3);
  } else if (P == "C39") {
    calm::dfs("small arrays", [=](mc::Ctx & c) {sort_small(c, th ? 9 : lt ? 5 : 7);}, 16, 3);
    calm::dfs("large arrays", [=](mc::Ctx & c) {sort_large(c, th ? 400 : lt ? 40 : 130);}, 16, 2);
    calm::dfs("huge arrays", sort_huge, 16, 3);
    calm::dfs("arguments", sort_args);
  } else if (P == "C40") {
    calm::dfs("one block", [=](mc::Ctx & c) {alloc_history(c, th ? 6 : lt ? 3 : 4, 1);}, 16, 2);
    calm::dfs("two blocks", [=](mc::Ctx & c) {alloc_history(c, th ? 4 : lt ? 2 : 3, 2);}, 16, 3);
    calm::dfs("large", alloc_large, 4, 2);
    calm::dfs("validity", alloc_valid);
    calm::dfs("reallocf", [=](mc::Ctx & c) {alloc_reallocf(c, th ? 6 : 4);}, 8, 2);
  } else if (P == "C42") {
    calm::dfs("units", units, 8, 2);
    calm::dfs("constants", unit_constants);
  } else if (P == "C43") {
    calm::dfs("checks", check_macros, 4, 2);
    calm::dfs("reports", [=](mc::Ctx & c) {report_macros(c, th ? 2500 : 1100);}, 16, 3);
  } else if (P == "C44") {
    calm::dfs("programs", [=](mc::Ctx & c) {fault_programs(c, th ? 6 : 4);}, 16, 3);
  } else if (P == "C54") {
    build_libs();
    mc::dfs("string map", [=](mc::Ctx & c) {alias_map(c, th ? 4 : 3);}, 32, 4);
    mc::dfs("error state", [=](mc::Ctx & c) {alias_error(c, th ? 7 : 6);}, 16, 3);
    mc::dfs("texts", [=](mc::Ctx & c) {alias_texts(c, th ? 7 : 5);}, 16, 4);
    mc::dfs("environment", [=](mc::Ctx & c) {alias_system(c, th ? 5 : 4);}, 16, 2);
    mc::dfs("libraries", alias_library);
  } else if (P == "C51") {
    build_libs();
    static const char * const kinds[] = {"one", "two", "everywhere", "in another"};
    for (int k = 0; k < PLAYS; ++k) {
      for (int kind = 0; kind < 4; ++kind) {
        mc::dfs(
          std::string(PLAY_NAMES[k]) + ", " + kinds[kind], [=](mc::Ctx & c) {nested(c, k, kind);},
          kind % 2 ? 16 : 1, 2);
      }
    }
  } else if (P == "C49" || P == "C50") {
    build_libs();
    bool mv = P == "C49";
    for (int k = 0; k < THINGS; ++k) {
      mc::dfs(
        THING_NAMES[k], [=](mc::Ctx & c) {
          if (mv) {moved(c, k, k == 7 ? (th ? 7 : 6) : th ? 7 : 6);} else {life_cycle(c, k, k == 7 ? (th ? 6 : 5) : th ? 7 : 6);}
        }, 16, 3);
    }
  }
}
void setup()
{
  for (auto & p : calm::parts({"C19", "C20", "C32", "C33", "C34", "C36", "C38", "C39", "C40", "C48"}, {"C18", "C21"})) {calm::part = p; setup_part(p);}
}
void worker_init()
{
  (void)!rcutils_initialize_error_handling_thread_local_storage(rcutils_get_default_allocator());
  if (rcutils_logging_initialize() != RCUTILS_RET_OK) {abort();}
  rcutils_logging_set_output_handler(quiet_handler);
  umask(0);
  std::string base = mc::cfg().out;
  char * real = realpath(base.c_str(), nullptr);
  base = real ? real : base;
  free(real);
  scratch = base + fmt("/s%d", (int)getpid());
  if (mkdir(scratch.c_str(), 0755) != 0 || chdir(scratch.c_str()) != 0) {
    fprintf(stderr, "no scratch directory %s\n", scratch.c_str());
    abort();
  }
}
}  // namespace
int main(int argc, char ** argv) {return mc::main_(argc, argv, setup, worker_init);}
