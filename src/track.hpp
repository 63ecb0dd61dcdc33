// A tracking, failing rcutils allocator, and canonical forms of the memory it handed out.
#ifndef TRACK_HPP_
#define TRACK_HPP_
#include <malloc.h>
#include <map>
#include <string>
#include <vector>
#include "mc.hpp"
#include "wraps.hpp"
#include "rcutils/allocator.h"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define TRK_POISON(p) __asan_poison_memory_region((p), 1)
#else
#define TRK_POISON(p) (void)(p)
#endif

extern "C" void * __real_malloc(size_t);
extern "C" void __real_free(void *);

namespace trk
{
struct Tracker
{
  struct Block {size_t size;};
  std::map<uintptr_t, Block> live;
  std::string error;            // first misuse seen
  // fault plan for the current operation
  int calls = 0;                // fallible calls so far
  int fail_from = 0;            // 1-based; 0: none
  int fail_to = 0;              // inclusive
  int also = 0;                 // one more failing call
  bool failed = false;          // some call was failed
  uint64_t total = 0;
  size_t fail_above = (size_t)1 << 32;   // larger requests always fail (and are not backed)
  bool (* hook)(int kind) = nullptr;     // extra source of failures (0 allocate, 1 reallocate, 2 zero)

  void plan(int from, int to) {calls = 0; fail_from = from; fail_to = to; failed = false;}
  bool deny(size_t n, int kind)
  {
    ++calls;
    if (hook && hook(kind)) {failed = true; return true;}
    if (n > fail_above) {failed = true; return true;}
    if (fail_from && calls >= fail_from && calls <= fail_to) {failed = true; return true;}
    if (also && calls == also) {failed = true; return true;}
    return false;
  }
  void * alloc(size_t n, unsigned char fill)
  {
    if (fill && wraps::fill >= 0) {fill = (unsigned char)wraps::fill;}
    ++total;
    void * p = __real_malloc(n ? n : 1);
    memset(p, fill, n);
    if (!n) {TRK_POISON(p);}          // a block of no bytes: nothing may be touched
    live[(uintptr_t)p] = Block{n};
    return p;
  }
  void misuse(const std::string & s) {if (error.empty()) {error = s;}}
  void release(void * p, const char * what)
  {
    if (!p) {return;}
    auto it = live.find((uintptr_t)p);
    if (it == live.end()) {
      misuse(mc::fmt("%s of a block the allocator did not hand out or that was already freed", what));
      return;
    }
    live.erase(it);
    __real_free(p);
  }
  rcutils_allocator_t get();
};

inline Tracker * of(void * state)
{
  return (Tracker *)state;
}
inline void * t_allocate(size_t n, void * st)
{
  Tracker * t = of(st);
  if (t->deny(n, 0)) {return nullptr;}
  return t->alloc(n, 0xCD);
}
inline void t_deallocate(void * p, void * st) {of(st)->release(p, "free");}
inline void * t_reallocate(void * p, size_t n, void * st)
{
  Tracker * t = of(st);
  if (p && n == 0) {        // like the default allocator (glibc): frees
    t->release(p, "realloc");
    return nullptr;
  }
  if (t->deny(n, 1)) {return nullptr;}
  if (!p) {return t->alloc(n, 0xCD);}
  auto it = t->live.find((uintptr_t)p);
  if (it == t->live.end()) {
    t->misuse("realloc of a block the allocator did not hand out or that was already freed");
    return nullptr;
  }
  size_t old = it->second.size;
  void * q = t->alloc(n, 0xCD);       // always moves
  memcpy(q, p, old < n ? old : n);
  t->release(p, "realloc");
  return q;
}
inline void * t_zero(size_t n, size_t sz, void * st)
{
  Tracker * t = of(st);
  size_t tot;
  if (__builtin_mul_overflow(n, sz, &tot)) {++t->calls; t->failed = true; return nullptr;}
  if (t->deny(tot, 2)) {return nullptr;}
  return t->alloc(tot, 0);
}
inline rcutils_allocator_t Tracker::get()
{
  rcutils_allocator_t a = rcutils_get_zero_initialized_allocator();
  a.allocate = t_allocate;
  a.deallocate = t_deallocate;
  a.reallocate = t_reallocate;
  a.zero_allocate = t_zero;
  a.state = this;
  return a;
}

// Canonical form: every block reachable from the roots, pointers renamed to discovery order.
// Two objects with the same canonical form are isomorphic, hence have the same futures.
inline void canon(
  mc::Hasher & h, const Tracker & t, std::vector<std::pair<const void *, size_t>> roots,
  const std::vector<std::pair<const void *, size_t>> & ext = {})
{
  std::map<uintptr_t, size_t> all;
  for (auto & b : t.live) {all[b.first] = b.second.size;}
  for (auto & e : ext) {all[(uintptr_t)e.first] = e.second;}
  std::map<uintptr_t, uint64_t> id;
  std::vector<std::pair<uintptr_t, size_t>> todo;
  auto scan = [&](const unsigned char * p, size_t n) {
      h.u64(n);
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        uint64_t v;
        memcpy(&v, p + i, 8);
        if (v == (uint64_t)(uintptr_t)&t) {h.u64(0x7172737475ull); continue;}
        if (v > 4096) {
          auto it = all.upper_bound((uintptr_t)v);
          if (it != all.begin()) {
            --it;
            if (v == it->first || (v > it->first && v < it->first + it->second)) {
              auto f = id.find(it->first);
              if (f == id.end()) {
                f = id.emplace(it->first, id.size()).first;
                todo.push_back({it->first, it->second});
              }
              h.u64(0x7070707070ull);
              h.u64(f->second);
              h.u64(v - it->first);
              continue;
            }
          }
        }
        h.u64(v);
      }
      uint64_t v = 0;
      memcpy(&v, p + i, n - i);
      h.u64(v);
    };
  for (auto & r : roots) {scan((const unsigned char *)r.first, r.second);}
  for (size_t i = 0; i < todo.size(); ++i) {
    auto b = todo[i];
    scan((const unsigned char *)b.first, b.second);
  }
  h.u64(t.live.size());
}
}  // namespace trk
#endif  // TRACK_HPP_
