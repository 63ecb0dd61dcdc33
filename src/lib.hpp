// Helpers shared by the harnesses: a library call environment with a tracking allocator.
#ifndef LIB_HPP_
#define LIB_HPP_
#include "mc.hpp"
#include "track.hpp"
#include "wraps.hpp"
#include "calm.hpp"
#include "exact.hpp"
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"

// One tracking allocator per execution; blocks left behind are judged by clean() and reclaimed.
struct Env
{
  trk::Tracker T;
  rcutils_allocator_t A = T.get();
  std::string id;
  explicit Env(const char * name)
  : id(name) {if (calm::on()) {calm::arm();} else {rcutils_reset_error();}}
  ~Env() {for (auto & l : T.live) {__real_free((void *)l.first);}}
  std::string K(const char * s) const {return id + ":" + s;}
  void clean(const char * when)
  {
    MC_CHECK(T.error.empty(), K("misuse").c_str(), "allocator misuse %s: %s", when, T.error.c_str());
    size_t n = T.live.size(), b = 0;
    for (auto & l : T.live) {b += l.second.size;}
    MC_CHECK(n == 0, K("leak").c_str(), "%zu blocks (%zu bytes) are still allocated %s", n, b, when);
  }
  // compares and releases a returned string
  void take(char * got, const std::string & want, const char * what)
  {
    MC_CHECK(got != nullptr, K("null").c_str(), "%s returned NULL", what);
    auto it = T.live.find((uintptr_t)got);
    MC_CHECK(
      it != T.live.end(), K("foreign").c_str(), "%s returned memory that is not from the given allocator", what);
    size_t room = it->second.size;
    size_t n = strnlen(got, room);
    MC_CHECK(
      n == want.size() && n < room && memcmp(got, want.data(), n) == 0, K("text").c_str(),
      "%s gave %s, expected %s", what, mc::q(got, n).c_str(), mc::q(want).c_str());
    A.deallocate(got, A.state);
  }
};

// every string over the given characters, of at most max characters
inline std::string all_strings(mc::Ctx & c, const char * chars, int max)
{
  int n = c.choose(max + 1);
  int k = (int)strlen(chars);
  std::string s;
  for (int i = 0; i < n; ++i) {s += chars[c.choose(k)];}
  return s;
}
inline std::string text_of(size_t n, int seed = 0)
{
  std::string s(n, 'x');
  for (size_t i = 0; i < n; ++i) {s[i] = (char)('a' + (i * 7 + (size_t)seed + i / 26) % 26);}
  return s;
}
#endif  // LIB_HPP_
