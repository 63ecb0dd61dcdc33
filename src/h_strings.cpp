// String and path functions: C12-C15 (exact results) and C10 (allocation failures).
#include <errno.h>
#include <functional>
#include "lib.hpp"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/types/string_array.h"

using mc::fmt;
using mc::q;

static int fail_vsnprintf;     // the call counted down to zero fails
extern "C" {
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __wrap_vsnprintf(char * b, size_t n, const char * f, va_list a)
{
  if (fail_vsnprintf && --fail_vsnprintf == 0) {
    errno = ENOMEM;
    return -1;
  }
  return __real_vsnprintf(b, n, f, a);
}
}

namespace
{
typedef std::vector<std::string> Tokens;
Tokens want_split(const std::string & s, char d)
{
  Tokens t;
  std::string cur;
  for (char ch : s) {
    if (ch == d) {
      if (!cur.empty()) {t.push_back(cur);}
      cur.clear();
    } else {cur += ch;}
  }
  if (!cur.empty()) {t.push_back(cur);}
  return t;
}
Tokens want_split_last(std::string s, char d)
{
  while (!s.empty() && s.back() == d) {s.pop_back();}
  size_t b = 0;
  while (b < s.size() && s[b] == d) {++b;}
  s = s.substr(b);
  if (s.empty()) {return {};}
  size_t l = s.rfind(d);
  if (l == std::string::npos) {return {s};}
  std::string a = s.substr(0, l), z = s.substr(l + 1);
  while (a.back() == d) {a.pop_back();}
  return {a, z};
}
std::string show(const Tokens & t)
{
  std::string s = "[";
  for (auto & x : t) {s += (s.size() > 1 ? ", " : "") + q(x);}
  return s + "]";
}

void judge_tokens(Env & e, const char * fn, const std::string & in, char d, rcutils_string_array_t & a, const Tokens & want)
{
  Tokens got;
  MC_CHECK(a.size < 100000, e.K("tokens").c_str(), "%s(%s, %s) gave %zu tokens", fn, q(in).c_str(), q(&d, 1).c_str(), a.size);
  for (size_t i = 0; i < a.size; ++i) {
    MC_CHECK(a.data && a.data[i], e.K("tokens").c_str(), "%s(%s, %s): token %zu of %zu is NULL", fn, q(in).c_str(), q(&d, 1).c_str(), i, a.size);
    auto it = e.T.live.find((uintptr_t)a.data[i]);
    MC_CHECK(it != e.T.live.end(), e.K("foreign").c_str(), "token %zu is not from the given allocator", i);
    size_t n = strnlen(a.data[i], it->second.size);
    MC_CHECK(n < it->second.size, e.K("unterminated").c_str(), "token %zu is not terminated", i);
    got.push_back(std::string(a.data[i], n));
  }
  MC_CHECK(
    got == want, e.K("tokens").c_str(), "%s(%s, %s) gave %s, expected %s", fn, q(in).c_str(), q(&d, 1).c_str(),
    show(got).c_str(), show(want).c_str());
}

void do_split(mc::Ctx & c, const std::string & in, char d, bool last)
{
  Env e(last ? "split_last" : "split");
  Exact s(in);
  rcutils_string_array_t a;
  if (c.pos & 1) {a = rcutils_get_zero_initialized_string_array();} else {memset(&a, 0x5a, sizeof a);}
  c.note("%s(%s, delimiter %s)", e.id.c_str(), q(in).c_str(), q(&d, 1).c_str());
  rcutils_ret_t r = last ? rcutils_split_last(s.p, d, e.A, &a) : rcutils_split(s.p, d, e.A, &a);
  MC_CHECK(r == RCUTILS_RET_OK, e.K("ret").c_str(), "%s(%s, %s) returned %d", e.id.c_str(), q(in).c_str(), q(&d, 1).c_str(), r);
  Tokens w = last ? want_split_last(in, d) : want_split(in, d);
  judge_tokens(e, e.id.c_str(), in, d, a, w);
  MC_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, e.K("fini").c_str(), "fini failed");
  e.clean("after releasing the tokens");
  c.outcome(e.id + show(w));
}

void split_all(mc::Ctx & c, int max)
{
  bool last = c.flip();
  static const char ds[] = {'/', '%', '\xff'};
  char d = c.pick(ds);
  char alpha[] = {d, 'a', d == '%' ? 's' : '%', 0};
  std::string in = all_strings(c, alpha, max);
  do_split(c, in, d, last);
}
// every delimiter byte
void split_delims(mc::Ctx & c, int max)
{
  bool last = c.flip();
  char d = (char)c.choose(256);
  char other = d == 'a' ? 'b' : 'a';
  char alpha[] = {other, d, 0};
  std::string in = all_strings(c, alpha, max);
  do_split(c, in, d, last);
}
size_t big_length(mc::Ctx & c, int dense)
{
  static const int extra[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095,
    4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 70001};
  int i = c.choose(dense + (int)(sizeof extra / sizeof extra[0]));
  return i < dense ? (size_t)i : (size_t)extra[i - dense];
}
void split_lengths(mc::Ctx & c, int dense)
{
  bool last = c.flip();
  int lead = c.choose(3), mid = c.choose(3) + 1, trail = c.choose(3);
  size_t a = big_length(c, dense);
  bool second_long = c.flip();
  std::string A = text_of(a), B = text_of(second_long ? a + 3 : 2, 5);
  std::string in = std::string((size_t)lead, ',') + A + std::string((size_t)mid, ',') + B + std::string((size_t)trail, ',');
  do_split(c, in, ',', last);
}
void split_counts(mc::Ctx & c, int max)
{
  bool last = c.flip();
  int n = c.choose(max + 1), gap = c.choose(3) + 1;
  std::string in;
  for (int i = 0; i < n; ++i) {
    if (i) {in += std::string((size_t)gap, ' ');}
    in += text_of((size_t)(i % 5) + 1, i);
  }
  do_split(c, in, ' ', last);
}
// long runs of delimiters, and many tokens
void split_large(mc::Ctx & c)
{
  bool last = c.flip();
  int where = c.choose(5);
  size_t n = big_length(c, 0);
  std::string run(n, ';'), in;
  if (where == 0) {in = run + "a;b";} else if (where == 1) {in = "a;b" + run;} else if (where == 2) {in = "x;a" + run + "b;y";} else if (where == 3) {in = run;
  } else {for (size_t i = 0; i < n; ++i) {in += "ab;";}}
  do_split(c, in, ';', last);
}
void split_null(mc::Ctx & c)
{
  Env e("split_null");
  bool last = c.flip();
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  rcutils_ret_t r = last ? rcutils_split_last(nullptr, '/', e.A, &a) : rcutils_split(nullptr, '/', e.A, &a);
  MC_CHECK(r == RCUTILS_RET_OK && a.size == 0, e.K("null").c_str(), "splitting NULL returned %d with %zu tokens", r, a.size);
  if (!last) {
    Exact s(std::string("a/b"));
    r = rcutils_split(s.p, '/', e.A, nullptr);
    MC_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, e.K("null-out").c_str(), "split without an output returned %d", r);
    rcutils_reset_error();
  }
  e.clean("after splitting NULL");
  c.outcome(fmt("%d", last));
}

// ------------------------------------------------------------------ find
void judge_find(mc::Ctx & c, const std::string & s, char d, size_t n)
{
  std::string head = s.substr(0, n);
  size_t w = head.find(d), wl = head.rfind(d);
  if (w == std::string::npos) {w = SIZE_MAX;}
  if (wl == std::string::npos) {wl = SIZE_MAX;}
  {
    Exact b(s.data(), n);           // not terminated: only n bytes exist
    size_t g = rcutils_findn(b.p, d, n);
    MC_CHECK(g == w, "find:findn", "findn(%s, %s, %zu) gave %zd, expected %zd", q(s).c_str(), q(&d, 1).c_str(), n, (ssize_t)g, (ssize_t)w);
    g = rcutils_find_lastn(b.p, d, n);
    MC_CHECK(g == wl, "find:find_lastn", "find_lastn(%s, %s, %zu) gave %zd, expected %zd", q(s).c_str(), q(&d, 1).c_str(), n, (ssize_t)g, (ssize_t)wl);
  }
  if (n == s.size()) {
    Exact b(s);
    size_t g = rcutils_find(b.p, d);
    MC_CHECK(g == w, "find:find", "find(%s, %s) gave %zd, expected %zd", q(s).c_str(), q(&d, 1).c_str(), (ssize_t)g, (ssize_t)w);
    g = rcutils_find_last(b.p, d);
    MC_CHECK(g == wl, "find:find_last", "find_last(%s, %s) gave %zd, expected %zd", q(s).c_str(), q(&d, 1).c_str(), (ssize_t)g, (ssize_t)wl);
  }
  c.outcome(fmt("%zd %zd %zu %zu", (ssize_t)w, (ssize_t)wl, n, s.size()));
}
void find_all(mc::Ctx & c, int max)
{
  static const char ds[] = {'/', 'a', '\x80', '\xff', '\x01'};
  char d = c.pick(ds);
  char alpha[] = {d, 'b', '\x7f', 0};
  std::string s = all_strings(c, alpha, max);
  size_t n = (size_t)c.choose((int)s.size() + 1);
  c.note("find %s in %s, %zu characters", q(&d, 1).c_str(), q(s).c_str(), n);
  judge_find(c, s, d, n);
}
void find_long(mc::Ctx & c, int max)
{
  int len = c.choose(max) + 1;
  int at = c.choose(len + 1), at2 = c.choose(3);
  std::string s = text_of((size_t)len);
  if (at < len) {s[(size_t)at] = '/';}
  if (at2 == 1) {s[0] = '/';} else if (at2 == 2) {s.back() = '/';}
  judge_find(c, s, '/', s.size());
  if (s.size() > 1) {judge_find(c, s, '/', s.size() - 1);}
}
void find_large(mc::Ctx & c)
{
  size_t len = big_length(c, 0);
  static const int first[] = {-1, 0, 126, 127, 128, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, -2, -3};
  int a = c.pick(first), b = c.pick(first);
  std::string s = text_of(len);
  for (int p : {a, b}) {
    size_t at = p == -1 ? SIZE_MAX : p == -2 ? len - 1 : p == -3 ? len / 2 : (size_t)p;
    if (at < len) {s[at] = '/';}
  }
  judge_find(c, s, '/', s.size());
  judge_find(c, s, '/', s.size() - 1);
}
void find_null(mc::Ctx & c)
{
  (void)c.choose(1);
  MC_CHECK(
    rcutils_find(nullptr, 'a') == SIZE_MAX && rcutils_findn(nullptr, 'a', 3) == SIZE_MAX &&
    rcutils_find_last(nullptr, 'a') == SIZE_MAX && rcutils_find_lastn(nullptr, 'a', 3) == SIZE_MAX,
    "find:null", "searching NULL does not give SIZE_MAX");
  c.outcome("null");
}

// ------------------------------------------------------------------ replace
std::string want_repl(const std::string & s, const std::string & f, const std::string & t)
{
  std::string o;
  size_t i = 0;
  while (i < s.size()) {
    if (s.compare(i, f.size(), f) == 0) {o += t; i += f.size();} else {o += s[i++];}
  }
  return o;
}
void do_repl(mc::Ctx & c, const std::string & s, const std::string & f, const std::string & t)
{
  Env e("repl_str");
  Exact es(s), ef(f), et(t);
  c.note("repl_str(%s, %s, %s)", q(s).c_str(), q(f).c_str(), q(t).c_str());
  std::string w = want_repl(s, f, t);
  char * g = rcutils_repl_str(es.p, ef.p, et.p, &e.A);
  e.take(g, w, fmt("repl_str(%s, %s, %s)", q(s).c_str(), q(f).c_str(), q(t).c_str()).c_str());
  e.clean("after releasing the result");
  c.outcome(w.size() > 64 ? fmt("%zu", w.size()) : w);
}
void repl_all(mc::Ctx & c, int smax, int fmax, int tmax)
{
  std::string f = all_strings(c, "ab", fmax - 1) + "ab"[c.choose(2)];
  std::string t = all_strings(c, "ax", tmax);
  std::string s = all_strings(c, "ab", smax);
  do_repl(c, s, f, t);
}
void repl_counts(mc::Ctx & c, int dense)
{
  static const int extra[] = {63, 64, 65, 66, 207, 208, 209, 210, 639, 640, 641, 1935, 1936, 1937, 5823, 5824, 5825};
  static const char * const fs[] = {"/", "ab", "aaa"};
  static const char * const ts[] = {"", "x", "\\\\", "a longer replacement"};
  const char * f = c.pick(fs), * t = c.pick(ts);
  int gap = c.choose(3), edge = c.choose(3);
  int i = c.choose(dense + (int)(sizeof extra / sizeof extra[0]));
  int n = i < dense ? i : extra[i - dense];
  std::string s;
  if (edge == 1) {s += "head";}
  for (int k = 0; k < n; ++k) {s += f + std::string((size_t)(gap == 2 ? k % 3 : gap), '.');}
  if (edge == 2) {s += "tail";}
  do_repl(c, s, f, t);
}

// many matches: few variants only, as a checked strstr() looks at the whole rest of the text each time
void repl_many(mc::Ctx & c)
{
  static const int ns[] = {32767, 32769, 65536, 65537};
  int n = c.pick(ns);
  bool grow = c.flip();
  std::string s;
  for (int k = 0; k < n; ++k) {s += k % 1000 ? "/" : ".";}
  do_repl(c, s, "/", grow ? "--->" : "");
}
// long patterns, replacements and texts
void repl_lengths(mc::Ctx & c)
{
  int what = c.choose(3);
  size_t n = big_length(c, 0);
  std::string f = what == 0 ? text_of(n, 1) : "k", t = what == 1 ? text_of(n, 7) : "new", gap(what == 2 ? n : 3, '.');
  int form = c.choose(4);
  std::string s = form == 0 ? f : form == 1 ? gap + f + f + gap : form == 2 ? f.substr(0, f.size() - 1) + gap + f : gap;
  do_repl(c, s, f, t);
}

// ------------------------------------------------------------------ strdup
void dup_lengths(mc::Ctx & c, int dense)
{
  size_t len = big_length(c, dense);
  bool high = c.flip();
  int mode = c.choose(4);
  Env e("strdup");
  std::string s = text_of(len);
  if (high) {for (size_t i = 0; i < len; ++i) {s[i] = (char)(1 + (i * 37) % 255);}}
  Exact b(s);
  if (mode == 0) {
    c.note("strdup of %zu characters", len);
    e.take(rcutils_strdup(b.p, e.A), s, fmt("strdup(%s)", q(s).c_str()).c_str());
  } else {
    // a limit below, at and above the length
    size_t n = mode == 1 ? len : mode == 2 ? len + 1 : SIZE_MAX;
    c.note("strndup of %zu characters, limit %zu", len, n);
    e.take(rcutils_strndup(b.p, n, e.A), s, fmt("strndup(%s, %zu)", q(s).c_str(), n).c_str());
  }
  e.clean("after releasing the copy");
  c.outcome(fmt("%zu %d", len, mode));
}
void ndup_all(mc::Ctx & c, int max)
{
  size_t len = (size_t)c.choose(max + 1), n = (size_t)c.choose(max + 3);
  Env e("strndup");
  std::string s = text_of(len, 3);
  std::string w = s.substr(0, n);
  c.note("strndup of %zu characters, limit %zu", len, n);
  {
    Exact b(s);
    e.take(rcutils_strndup(b.p, n, e.A), w, fmt("strndup(%s, %zu)", q(s).c_str(), n).c_str());
  }
  if (n <= len) {                   // exactly n bytes and no terminator
    Exact b(s.data(), n);
    e.take(rcutils_strndup(b.p, n, e.A), w, fmt("strndup of %zu unterminated bytes", n).c_str());
  }
  e.clean("after releasing the copies");
  c.outcome(w);
}
// ------------------------------------------------------------------ format
void format_limits(mc::Ctx & c, int max, int base)
{
  static const int bases[] = {4088, 32760, 65528};
  if (base < 0) {base = c.pick(bases);}
  size_t len = (size_t)(base + c.choose(max + 1));
  size_t limit = (size_t)(base + c.choose(max + 3) + (base ? 0 : 1));
  int kind = c.choose(3);
  Env e("format_string");
  std::string s = text_of(len, 2);
  char * g;
  std::string w;
  c.note("format_string_limit, text of %zu characters, limit %zu, form %d", len, limit, kind);
  if (kind == 0) {
    w = s;
    g = rcutils_format_string_limit(e.A, limit, "%s", ro(s));
  } else if (kind == 1) {
    w = s + "-12x%\xe2\x82\xac";
    g = rcutils_format_string_limit(e.A, limit, "%s%dx%%%s", ro(s), -12, "\xe2\x82\xac");
  } else {
    w = fmt("%05zu|%s|%.3f|%c", len, s.c_str(), 1.5, 'z');
    g = rcutils_format_string_limit(e.A, limit, "%05zu|%s|%.3f|%c", len, ro(s), 1.5, 'z');
  }
  w = w.substr(0, limit - 1);
  e.take(g, w, fmt("format_string_limit(%zu) of %zu characters", limit, len).c_str());
  e.clean("after releasing the text");
  c.outcome(fmt("%zu %zu %d", len, limit, kind));
}
void format_default(mc::Ctx & c)
{
  // the default limit is 2048 including the terminator
  size_t len = (size_t)(2030 + c.choose(40));
  Env e("format_string");
  std::string s = text_of(len, 2);
  e.take(rcutils_format_string(e.A, "%s", ro(s)), s.substr(0, 2047), "format_string");
  MC_CHECK(rcutils_format_string_limit(e.A, 10, nullptr) == nullptr, e.K("null").c_str(), "formatting NULL gave a result");
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
  MC_CHECK(rcutils_format_string_limit(z, 10, "x") == nullptr, e.K("allocator").c_str(), "an invalid allocator was accepted");
  rcutils_reset_error();
  e.clean("after releasing the text");
  c.outcome(fmt("%zu", len));
}
void format_odd(mc::Ctx & c)
{
  // limits beyond anything that could be allocated, and conversions that fail (the first, measuring one,
  // and the second one)
  Env e("format_string");
  static const size_t limits[] = {1, 2, 5, 6, 100, 2048, (size_t)1 << 40, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX};
  size_t limit = c.pick(limits);
  bool lim = c.flip();
  int fail = c.choose(4);
  wchar_t bad[2] = {(wchar_t)0x7fffffff, 0};
  fail_vsnprintf = fail == 1 || fail == 2 ? fail : 0;
  const char * f = fail == 3 ? "ab%ls" : "hello %d";
  Exact x{std::string(f)};
  char * g = lim ? (fail == 3 ? rcutils_format_string_limit(e.A, limit, x.p, bad) : rcutils_format_string_limit(e.A, limit, x.p, 42)) :
    (fail == 3 ? rcutils_format_string(e.A, x.p, bad) : rcutils_format_string(e.A, x.p, 42));
  if (fail_vsnprintf) {fail = 0;}   // it took fewer conversions: none failed
  fail_vsnprintf = 0;
  c.note("format with limit %zu (%d), failing conversion %d", limit, lim, fail);
  if (fail) {
    MC_CHECK(!g, e.K("result").c_str(), "a failing conversion (%d) gave %s", fail, q(g).c_str());
  } else {
    e.take(g, std::string("hello 42").substr(0, lim ? limit - 1 : 8), "format_string");
  }
  e.clean("after a conversion");
  rcutils_reset_error();
  c.outcome(fmt("%zu %d %d", limit, lim, fail));
}
__attribute__((format(printf, 3, 4)))
int vwrap(char * b, size_t n, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = rcutils_vsnprintf(b, n, f, ap);
  va_end(ap);
  return r;
}
void snprintf_sizes(mc::Ctx & c, int max, bool large = false)
{
  size_t len = large ? big_length(c, 0) : (size_t)c.choose(max + 1), size = large ? big_length(c, 2) : (size_t)c.choose(max + 12);
  int kind = c.choose(3);
  bool nul = c.flip(), va = c.flip();
  std::string s = text_of(len, 4);
  std::string w = kind == 0 ? s : kind == 1 ? s + "-7" : fmt("%3zu:%s", len, s.c_str());
  Exact b(size + 8);
  char * buf = nul ? nullptr : b.p;
  errno = 4321;
  c.note("snprintf, text of %zu characters, %s of size %zu, form %d", w.size(), nul ? "no buffer" : "buffer", size, kind);
  int g;
  if (va) {
    g = kind == 0 ? vwrap(buf, size, "%s", ro(s)) : kind == 1 ? vwrap(buf, size, "%s%d", ro(s), -7) :
      vwrap(buf, size, "%3zu:%s", len, ro(s));
  } else {
    g = kind == 0 ? rcutils_snprintf(buf, size, "%s", ro(s)) : kind == 1 ?
      rcutils_snprintf(buf, size, "%s%d", ro(s), -7) : rcutils_snprintf(buf, size, "%3zu:%s", len, ro(s));
  }
  int er = errno;
  if ((nul && size) || (!nul && !size)) {
    MC_CHECK(g == -1 && er == EINVAL, "snprintf:invalid", "buffer %s, size %zu: returned %d, errno %d", nul ? "NULL" : "given", size, g, er);
  } else {
    MC_CHECK(g == (int)w.size(), "snprintf:length", "text of %zu characters into %zu bytes: returned %d", w.size(), size, g);
    MC_CHECK(er == 4321, "snprintf:errno", "errno changed to %d", er);
  }
  if (!nul) {
    size_t used = 0;
    if (size) {
      std::string t = w.substr(0, size - 1);
      used = t.size() + 1;
      MC_CHECK(memcmp(b.p, t.c_str(), used) == 0, "snprintf:text", "wrote %s, expected %s", q(b.p, used).c_str(), q(t.c_str(), used).c_str());
    }
    for (size_t i = size ? size : 0; i < size + 8; ++i) {
      MC_CHECK((unsigned char)b.p[i] == 0xAB, "snprintf:beyond", "byte %zu of a buffer of size %zu was written", i, size);
    }
  }
  c.outcome(fmt("%zu %zu %d %d", w.size(), size, nul, g));
}
void snprintf_null(mc::Ctx & c)
{
  int m = c.choose(3);
  char b[8] = "keep";
  errno = 0;
  const char * f = nullptr;
  if (m == 2) {errno = 0;}
  int g = m == 0 ? rcutils_snprintf(b, 8, f, 0) : m == 1 ? rcutils_snprintf(nullptr, 0, f, 0) : rcutils_snprintf(b, 0, f, 0);
  MC_CHECK(g == -1 && errno == EINVAL && !strcmp(b, "keep"), "snprintf:null", "a NULL format returned %d, errno %d, buffer %s", g, errno, b);
  Env e("strdup");
  MC_CHECK(rcutils_strdup(nullptr, e.A) == nullptr && rcutils_strndup(nullptr, 3, e.A) == nullptr, "strdup:null", "duplicating NULL gave a result");
  c.outcome(fmt("%d", m));
}

// ------------------------------------------------------------------ paths
void do_join(mc::Ctx & c, const std::string & l, const std::string & r)
{
  Env e("join_path");
  Exact a(l), b(r);
  c.note("join_path(%s, %s)", q(l).c_str(), q(r).c_str());
  e.take(rcutils_join_path(a.p, b.p, e.A), l + "/" + r, fmt("join_path(%s, %s)", q(l).c_str(), q(r).c_str()).c_str());
  e.clean("after releasing the path");
  c.outcome(l.size() + r.size() > 40 ? fmt("%zu %zu", l.size(), r.size()) : l + "/" + r);
}
void join_all(mc::Ctx & c, int max)
{
  std::string l = all_strings(c, "/a.%", max), r = all_strings(c, "/a.%", max);
  do_join(c, l, r);
}
void join_lengths(mc::Ctx & c, int dense)
{
  size_t l = big_length(c, dense), r = big_length(c, 2);
  bool swap = c.flip();
  do_join(c, text_of(swap ? r : l), text_of(swap ? l : r, 9));
}
void expand_all(mc::Ctx & c, int max)
{
  static const char * const homes[] = {nullptr, "", "/", "/h", "~", "/home/someone/with a %s name", "LONG"};
  const char * home = c.pick(homes);
  std::string long_home = "/" + text_of(3000);
  if (home && !strcmp(home, "LONG")) {home = long_home.c_str();}
  std::string p = all_strings(c, "~/.a%", max);
  if (home) {setenv("HOME", home, 1);} else {unsetenv("HOME");}
  Env e("expand_user");
  Exact b(p);
  c.note("expand_user(%s) with HOME %s", q(p).c_str(), q(home).c_str());
  char * g = rcutils_expand_user(b.p, e.A);
  bool has = home && *home;
  const char * hd = rcutils_get_home_dir();
  MC_CHECK(has ? (hd && !strcmp(hd, home)) : !hd, e.K("home").c_str(), "home directory is %s with HOME %s", q(hd).c_str(), q(home).c_str());
  if (p.empty() || p[0] != '~') {
    e.take(g, p, fmt("expand_user(%s)", q(p).c_str()).c_str());
  } else if (has) {
    e.take(g, home + p.substr(1), fmt("expand_user(%s) with HOME %s", q(p).c_str(), q(home).c_str()).c_str());
  } else {
    MC_CHECK(!g, e.K("no-home").c_str(), "expand_user(%s) without a home directory gave %s", q(p).c_str(), q(g).c_str());
  }
  e.clean("after releasing the path");
  c.outcome(p + fmt("%d", has));
}
void expand_lengths(mc::Ctx & c, int dense)
{
  size_t h = big_length(c, 3), p = big_length(c, dense);
  bool swap = c.flip();
  std::string home = "/" + text_of(swap ? p : h), path = "~/" + text_of(swap ? h : p, 4);
  setenv("HOME", home.c_str(), 1);
  Env e("expand_user");
  Exact b(path);
  e.take(rcutils_expand_user(b.p, e.A), home + path.substr(1), "expand_user");
  Exact plain(path.substr(1));
  e.take(rcutils_expand_user(plain.p, e.A), path.substr(1), "expand_user of an absolute path");
  e.clean("after releasing the path");
  c.outcome(fmt("%zu %zu", home.size(), path.size()));
}
void native_all(mc::Ctx & c, int max)
{
  std::string p = all_strings(c, "/\\a", max);
  Env e("to_native_path");
  Exact b(p);
  c.note("to_native_path(%s)", q(p).c_str());
  e.take(rcutils_to_native_path(b.p, e.A), p, fmt("to_native_path(%s)", q(p).c_str()).c_str());
  e.clean("after releasing the path");
  c.outcome(p);
}
void native_long(mc::Ctx & c, int max)
{
  int n = c.choose(max + 1);
  std::string p;
  for (int i = 0; i < n; ++i) {p += "/" + text_of((size_t)(i % 3), i);}
  Env e("to_native_path");
  Exact b(p);
  e.take(rcutils_to_native_path(b.p, e.A), p, "to_native_path");
  e.clean("after releasing the path");
  c.outcome(fmt("%d", n));
}
void path_null(mc::Ctx & c)
{
  (void)c.choose(1);
  Env e("path_null");
  MC_CHECK(
    !rcutils_join_path(nullptr, "a", e.A) && !rcutils_join_path("a", nullptr, e.A) &&
    !rcutils_expand_user(nullptr, e.A) && !rcutils_to_native_path(nullptr, e.A), "path:null", "a NULL path gave a result");
  e.clean("after NULL paths");
  c.outcome("null");
}

// ------------------------------------------------------------------ C10
// A call of the library with its inputs; run() returns whether it reported success, after judging
// and releasing what it returned.
struct Call
{
  std::string name;
  std::function<bool(Env &)> run;
};
bool str_call(Env & e, char * g, const std::string & want, const char * what)
{
  if (!g) {return false;}
  e.take(g, want, what);
  return true;
}
Call pick_call(mc::Ctx & c, bool th)
{
  int L = th ? 12 : 9;
  switch (c.choose(11)) {
    case 0: case 1: {
        bool last = c.flip();
        std::string in = all_strings(c, "/a", L);
        return {fmt("%s(%s)", last ? "split_last" : "split", q(in).c_str()), [=](Env & e) {
            Exact s(in);
            rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
            rcutils_ret_t r = last ? rcutils_split_last(s.p, '/', e.A, &a) : rcutils_split(s.p, '/', e.A, &a);
            if (r == RCUTILS_RET_OK) {
              judge_tokens(e, last ? "split_last" : "split", in, '/', a, last ? want_split_last(in, '/') : want_split(in, '/'));
            } else {
              MC_CHECK(r == RCUTILS_RET_BAD_ALLOC, e.K("ret").c_str(), "returned %d instead of bad-alloc", r);
            }
            // the caller may release the output in either case
            MC_CHECK(rcutils_string_array_fini(&a) == RCUTILS_RET_OK, e.K("fini").c_str(), "releasing the tokens failed");
            return r == RCUTILS_RET_OK;
          }};
      }
    case 2: {
        std::string s = all_strings(c, "ab", 4), f = c.flip() ? "a" : "ab", t = c.flip() ? "xyz" : "";
        return {fmt("repl_str(%s, %s, %s)", q(s).c_str(), f.c_str(), t.c_str()), [=](Env & e) {
            Exact b(s), bf(f), bt(t);
            return str_call(e, rcutils_repl_str(b.p, bf.p, bt.p, &e.A), want_repl(s, f, t), "repl_str");
          }};
      }
    case 3: {
        static const int ns[] = {15, 16, 17, 64, 65, 208, 209, 300, 700};
        int n = c.pick(ns);
        std::string s;
        for (int i = 0; i < n; ++i) {s += "/x";}
        return {fmt("repl_str with %d matches", n), [=](Env & e) {
            Exact b(s);
            return str_call(e, rcutils_repl_str(b.p, "/", "\\\\", &e.A), want_repl(s, "/", "\\\\"), "repl_str");
          }};
      }
    case 4: {
        size_t n = (size_t)c.choose(20), lim = (size_t)c.choose(22) + 1;
        return {fmt("format_string of %zu characters, limit %zu", n, lim), [=](Env & e) {
            return str_call(e, rcutils_format_string_limit(e.A, lim, "%s", ro(text_of(n))), text_of(n).substr(0, lim - 1), "format_string");
          }};
      }
    case 5: {
        size_t n = (size_t)c.choose(20), lim = (size_t)c.choose(22);
        return {fmt("strdup, strndup(%zu) of %zu characters", lim, n), [=](Env & e) {
            Exact b(text_of(n));
            return lim == 21 ? str_call(e, rcutils_strdup(b.p, e.A), text_of(n), "strdup") :
                   str_call(e, rcutils_strndup(b.p, lim, e.A), text_of(n).substr(0, lim), "strndup");
          }};
      }
    case 6: {
        std::string l = all_strings(c, "/a", 2), r = all_strings(c, "/a", 2);
        return {"join_path", [=](Env & e) {
            return str_call(e, rcutils_join_path(ro(l), ro(r), e.A), l + "/" + r, "join_path");
          }};
      }
    case 7: {
        std::string p = all_strings(c, "~/a", 3);
        return {fmt("expand_user(%s)", q(p).c_str()), [=](Env & e) {
            setenv("HOME", "/home/me", 1);
            std::string w = p.size() && p[0] == '~' ? "/home/me" + p.substr(1) : p;
            return str_call(e, rcutils_expand_user(ro(p), e.A), w, "expand_user");
          }};
      }
    case 8: {
        std::string p = all_strings(c, "/a", 4);
        return {fmt("to_native_path(%s)", q(p).c_str()), [=](Env & e) {
            return str_call(e, rcutils_to_native_path(ro(p), e.A), p, "to_native_path");
          }};
      }
    case 9:
      return {"get_executable_name", [=](Env & e) {
          static char name[] = "/some/where/prog";
          char * old = program_invocation_name;
          program_invocation_name = name;
          char * g = rcutils_get_executable_name(e.A);
          program_invocation_name = old;
          return str_call(e, g, "prog", "get_executable_name");
        }};
    default: {
        static const char * const names[] = {"DEBUG", "info", "Warn", "eRROR", "FATAL", "UNSET", "nope", ""};
        static const int sev[] = {10, 20, 30, 40, 50, 0, -1, -1};
        int i = c.choose(8);
        return {fmt("severity_level_from_string(%s)", names[i]), [=](Env & e) {
            int v = -77;
            rcutils_ret_t r = rcutils_logging_severity_level_from_string(names[i], e.A, &v);
            if (sev[i] >= 0 && r == RCUTILS_RET_OK) {
              MC_CHECK(v == sev[i], e.K("value").c_str(), "%s gave %d", names[i], v);
              return true;
            }
            MC_CHECK(v == -77, e.K("output").c_str(), "%s failed with %d but set the output to %d", names[i], r, v);
            if (e.T.failed) {return false;}
            MC_CHECK(sev[i] < 0, e.K("ret").c_str(), "%s returned %d", names[i], r);
            MC_CHECK(r == RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID, e.K("ret").c_str(), "%s returned %d", names[i], r);
            return true;
          }};
      }
  }
}
void faults(mc::Ctx & c, bool th)
{
  Call call = pick_call(c, th);
  Env e("faults");
  // without a failure
  e.T.plan(0, 0);
  bool ok = call.run(e);
  int n = e.T.calls;
  MC_CHECK(ok, e.K("plain").c_str(), "%s failed without any allocation failure", call.name.c_str());
  rcutils_reset_error();
  e.clean("after the call without failures");
  if (n == 0) {c.outcome(call.name); return;}
  int k = c.choose(n) + 1;
  int how = c.choose(2 + n - k);            // alone, all later ones, or with one later one
  c.note("%s with allocation %d of %d failing%s", call.name.c_str(), k, n, how == 0 ? "" : how == 1 ? " and all later ones" : " and one later one");
  e.T.plan(k, how == 0 ? k : how == 1 ? 1 << 30 : k);
  if (how > 1) {e.T.also = k + how - 1;}
  ok = call.run(e);
  e.T.also = 0;
  bool hit = e.T.failed;
  e.T.plan(0, 0);
  if (!hit) {MC_CHECK(ok, e.K("unhit").c_str(), "%s failed although no allocation failed", call.name.c_str());}
  rcutils_reset_error();
  e.clean(fmt("after %s with a failing allocation", call.name.c_str()).c_str());
  ok = call.run(e);
  MC_CHECK(ok, e.K("after").c_str(), "%s fails after an earlier allocation failure", call.name.c_str());
  rcutils_reset_error();
  e.clean("after the repeated call");
  c.outcome(call.name + fmt("%d %d", k, how));
}

void setup_part(const std::string & P)
{
  // (C48 goes over the same calls with the smaller bounds)
  bool th = mc::cfg().thorough && !calm::pass(), lt = calm::light();
  if (P == "C10") {
    calm::dfs("failing allocations", [=](mc::Ctx & c) {faults(c, th);}, 16, 3);
  } else if (P == "C12") {
    calm::dfs("split all strings", [=](mc::Ctx & c) {split_all(c, th ? 13 : lt ? 8 : 11);}, 32, 6);
    calm::dfs("split every delimiter", [=](mc::Ctx & c) {split_delims(c, th ? 10 : lt ? 5 : 8);}, 16, 2);
    calm::dfs("split token lengths", [=](mc::Ctx & c) {split_lengths(c, th ? 1100 : lt ? 60 : 140);}, 16, 4);
    calm::dfs("split token counts", [=](mc::Ctx & c) {split_counts(c, th ? 400 : 100);}, 4, 2);
    calm::dfs("split large", split_large, 4, 2);
    if (!calm::on()) {calm::dfs("split null", split_null);}
  } else if (P == "C13") {
    calm::dfs("find all strings", [=](mc::Ctx & c) {find_all(c, th ? 11 : lt ? 6 : 8);}, 16, 4);
    calm::dfs("find positions", [=](mc::Ctx & c) {find_long(c, th ? 300 : 80);}, 8, 1);
    calm::dfs("find large", find_large, 8, 1);
    calm::dfs("find null", find_null);
    calm::dfs("replace all strings", [=](mc::Ctx & c) {repl_all(c, th ? 12 : lt ? 6 : 9, th ? 4 : 3, th ? 4 : 3);}, 32, 5);
    calm::dfs("replace lengths", repl_lengths, 4, 1);
    calm::dfs("replace many", repl_many, 8, 1);
    calm::dfs("replace counts", [=](mc::Ctx & c) {repl_counts(c, th ? 2000 : 80);}, 32, 4);
  } else if (P == "C14") {
    calm::dfs("strdup lengths", [=](mc::Ctx & c) {dup_lengths(c, th ? 5000 : 600);}, 8, 2);
    calm::dfs("strndup limits", [=](mc::Ctx & c) {ndup_all(c, th ? 600 : 150);}, 4, 1);
    calm::dfs("format limits", [=](mc::Ctx & c) {format_limits(c, th ? 500 : 150, 0);}, 8, 1);
    calm::dfs("format odd", format_odd, 4, 1);
    calm::dfs("format limits around 1024", [=](mc::Ctx & c) {format_limits(c, 24, 1012);}, 4, 1);
    calm::dfs("format limits around 2048", [=](mc::Ctx & c) {format_limits(c, 24, 2036);}, 4, 1);
    calm::dfs("format large limits", [=](mc::Ctx & c) {format_limits(c, 20, -1);}, 8, 2);
    calm::dfs("format default limit", format_default);
    calm::dfs("snprintf sizes", [=](mc::Ctx & c) {snprintf_sizes(c, th ? 300 : 120);}, 8, 1);
    calm::dfs("snprintf large", [=](mc::Ctx & c) {snprintf_sizes(c, 0, true);}, 8, 1);
    calm::dfs("snprintf null", snprintf_null);
  } else if (P == "C15") {
    calm::dfs("join all", [=](mc::Ctx & c) {join_all(c, th ? 6 : lt ? 4 : 5);}, 16, 3);
    calm::dfs("join lengths", [=](mc::Ctx & c) {join_lengths(c, th ? 4200 : 300);}, 8, 1);
    calm::dfs("expand all", [=](mc::Ctx & c) {expand_all(c, th ? 8 : lt ? 4 : 6);}, 16, 3);
    calm::dfs("expand lengths", [=](mc::Ctx & c) {expand_lengths(c, th ? 1100 : 100);}, 8, 2);
    calm::dfs("native all", [=](mc::Ctx & c) {native_all(c, th ? 12 : lt ? 8 : 10);}, 8, 3);
    calm::dfs("native long", [=](mc::Ctx & c) {native_long(c, th ? 2200 : 700);}, 4, 1);
    calm::dfs("path null", path_null);
  }
}
void setup()
{
  for (auto & p : calm::parts({"C12", "C13", "C14", "C15"}, {"C10"})) {calm::part = p; setup_part(p);}
}
void quiet_handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t,
  const char *, va_list *) {}
void worker_init()
{
  if (rcutils_logging_initialize() != RCUTILS_RET_OK) {abort();}
  rcutils_logging_set_output_handler(quiet_handler);
}
}  // namespace
int main(int argc, char ** argv) {return mc::main_(argc, argv, setup, worker_init);}
