// C53: inputs in memory the library can only read. The same pages are mapped twice; the harness writes through one
// view and hands out the other.
#ifndef FROZEN_HPP_
#define FROZEN_HPP_
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#include "mc.hpp"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

namespace frozen
{
inline bool on()
{
  static const bool b = mc::cfg().prop == "C53";
  return b;
}
constexpr size_t ROOM = (size_t)256 << 20, GAP = 32;
struct Pool
{
  char * rw = nullptr, * ro = nullptr;
  size_t used = 0;
  pid_t owner = 0;
  std::vector<char *> idle[40];
};
inline Pool & pool()
{
  static Pool P;
  if (P.owner != getpid()) {            // a child must not share pages with its parent
    P = Pool();
    P.owner = getpid();
    int fd = memfd_create("inputs", 0);
    if (fd < 0 || ftruncate(fd, (off_t)ROOM) != 0) {abort();}
    P.rw = (char *)mmap(nullptr, ROOM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0);
    P.ro = (char *)mmap(nullptr, ROOM, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0);
    close(fd);
    if (P.rw == MAP_FAILED || P.ro == MAP_FAILED) {abort();}
#if defined(__SANITIZE_ADDRESS__)
    ASAN_POISON_MEMORY_REGION(P.ro, ROOM);
#endif
  }
  return P;
}
inline int kind(size_t n)
{
  int k = 6;
  while (((size_t)1 << k) < n + GAP) {++k;}
  return k;
}
// (the block ends where the text ends: what follows is poisoned, like what is before it)
inline char * get(const void * s, size_t n)
{
  Pool & P = pool();
  int k = kind(n);
  char * p;
  if (!P.idle[k].empty()) {
    p = P.idle[k].back();
    P.idle[k].pop_back();
  } else {
    if (P.used + ((size_t)1 << k) > ROOM) {return nullptr;}
    p = P.ro + P.used + GAP / 2;
    P.used += (size_t)1 << k;
  }
  if (n) {
    memcpy(P.rw + (p - P.ro), s, n);
#if defined(__SANITIZE_ADDRESS__)
    ASAN_UNPOISON_MEMORY_REGION(p, n);
#endif
  }
  return p;
}
inline void put(char * p, size_t n)
{
  Pool & P = pool();
  if (p < P.ro || p >= P.ro + ROOM) {return;}          // from before a fork
#if defined(__SANITIZE_ADDRESS__)
  ASAN_POISON_MEMORY_REGION(p, n ? n : 1);
#endif
  P.idle[kind(n)].push_back(p);
}
}  // namespace frozen
#endif  // FROZEN_HPP_
